// Reading any text: memory safety, termination, no exception (checked by the engine on every access and call).
#include "jtext.h"
#include <json/Parser.h>
static const char* const templ[] = {
#include "json_templates.inc"
};
extern "C" void harness() {
  std::string text = jtext::make(templ);
  if (sym_param("REP", 0)) { std::string r; for (int k = 0; k < sym_param("REP", 0); k++) r += text; text = r; }
  std::string* t = new std::string(text);
  json::Parser* p = nullptr;
  try { p = new json::Parser(*t); } catch (...) { sym_fail("an exception escapes the reader"); }
  bool ok = (bool)*p;
  sym_observe("accepted", ok);
  sym_assert(t->size() == text.size() && memcmp(t->data(), text.data(), text.size()) == 0, "reading leaves the text alone");
  delete t;
  if (ok) { json::Value v(p->getRoot()); delete p; json::Value w(v); sym_assert(w.type() == v.type() && !w.isUndefined(), "the value outlives the reader"); sym_reach("accepted"); }
  else { delete p; sym_reach("rejected"); }
}

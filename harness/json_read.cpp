// The reader against the reference reader. CHECK: 1 verdict, 2 strings and keys, 4 integers, 8 structure
#include "jref.h"
#include "jtext.h"
static const char* const templ[] = {
#include "json_templates.inc"
};
extern "C" void harness() {
  int check = sym_param("CHECK", 15);
  std::string text = jtext::make(templ);
  int n = text.size();
  unsigned char* buf = (unsigned char*)malloc(n + 1);
  memcpy(buf, text.data(), n);
  std::string* heap = new std::string(text);
  json::Parser p(*heap);
  bool got = (bool)p;
  jref::Node* ref = jref::read(buf, n);
  sym_observe("accepted", got);
  if (check & 1) sym_assert(got == (ref != nullptr), "accepted exactly when the text starts with a supported value");
  if (!ref || !got) { sym_reach("rejected"); sym_end(); }
  sym_reach("accepted");
  int bad = jref::differ(p.getRoot(), ref);
  sym_observe("type", p.getRoot().type());
  if (check & 8) sym_assert(!(bad & 8), "the value mirrors the structure of the text");
  if (check & 2) sym_assert(!(bad & 2), "strings and keys hold exactly the decoded bytes");
  if (check & 4) sym_assert(!(bad & 4), "integers hold exactly the number written");
  // the tree stays intact when the text is gone
  delete heap;
  if ((check & 10) == 10) sym_assert(!jref::differ(p.getRoot(), ref), "the value does not depend on the text");
  { json::Value copy(p.getRoot()); if (check & 8) sym_assert(jref::differ(copy, ref) == bad, "a copy of the root is the same value"); }
}

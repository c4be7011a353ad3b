// Building an operation on a text: exit status 87 exactly when the text is rejected.
#include "jref.h"
#include "jtext.h"
#include <eni.h>
static const char* const templ[] = {
#include "json_templates.inc"
};
static jref::Node* ref;
static void onexit_(int st) {
  sym_assert(!ref, "an accepted text does not end the process");
  sym_assert(st == 87, "a rejected text ends the process with status 87");
  sym_reach("exit87");
}
static jref::Node* seen; static bool parsed;
struct Op : eni::EniBase {
  Op(const std::string& s) : EniBase(s) {}
  ~Op() {}
  bool parse(const json::Array& a) override {
    parsed = true;
    sym_assert(ref->ty == jref::Arr && (int)a.size() == ref->cnt, "the operation sees the array of the text");
    int bad = 0; for (int k = 0; k < ref->cnt; k++) bad |= jref::differ(a[k], ref->kid[k]);
    sym_assert(!bad, "the operation sees the arguments of the text");
    return true;
  }
  eni::Gas gas() const override { return 3; }
  bool run(json::Array&) override { return true; }
};
extern "C" void harness() {
  std::string text = jtext::make(templ);
  unsigned char* buf = (unsigned char*)malloc(text.size() + 1);
  memcpy(buf, text.data(), text.size());
  ref = jref::read(buf, text.size());
  sym_exit_hook(onexit_);
  {
    Op op(text);
    sym_assert(ref != nullptr, "a rejected text ends the process");
    text.clear(); text.shrink_to_fit();
    eni::Gas g = op.getGas();
    sym_assert(g == (ref->ty == jref::Arr ? 3 : 1500), "arguments that are not an array are refused");
    sym_assert(parsed == (ref->ty == jref::Arr), "the operation's check sees array arguments only");
  }
  sym_reach("built");
  sym_end();
}

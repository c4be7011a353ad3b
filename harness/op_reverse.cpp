#include "ops.h"
extern "C" void harness() {
  int L = sym_param("L", 3), M = sym_param("M", 0), at = sym_param("AT", 0);
  std::string s = jbuild::symString(L);
  if (M) { std::string b; for (int k = 0; k < M; k++) b += (char)('a' + k % 26); b.insert(at < 0 ? b.size() : at, s); s = b; }
  std::string t = "[" + ops::quote(s) + "]";
  if (sym_param("ESC", 0)) { // the same bytes written as \u escapes
    t = "[\""; static const char* hx[2] = {"0123456789abcdef", "0123456789ABCDEF"};
    for (unsigned char c : s) { t += "\\u00"; t += hx[0][c >> 4]; t += hx[1][c & 15]; } t += "\"]"; }
  uint64_t g = ops::gas(reverse_gas, t);
  sym_assert(g == 10 * s.size(), "the gas is ten times the number of bytes");
  char* r = ops::run(reverse_run, t);
  sym_assert(r != nullptr, "a string argument is accepted");
  jref::Node* n = ops::text(r);
  std::string want; for (size_t k = s.size(); k-- > 0;) want += s[k];
  sym_assert(ops::is(n, want), "the result is the argument's bytes in reverse order");
  free(r); sym_reach("done");
}

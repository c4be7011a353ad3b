// The characteristic hash of a string and the substring filter.
#include "sym.h"
#include <adt/StringHasher.h>
using namespace eni::internal;
static char* g_a[4]; static int g_n;
static std::string sym(int n) { char* b = (char*)malloc(n + 1); sym_bytes("s", b, n); return std::string(b, n); }
// long runs of one kind of character, of every length near the powers of two
static std::string run(const char* n1, const char* n2) {
  static const int len[] = {3, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000}; static const char kind[] = {'b', 'Z', '7', '_', '-', '.', (char)0xe9, 0};
  return std::string(len[sym_choose(n1, 18)], kind[sym_choose(n2, 8)]);
}
// what the documentation says the hash depends on
static unsigned summary(const std::string& s, int& dots) { // letters, digit, underscore as a set of bits in an order of its own
  unsigned r = 0; dots = 0;
  for (unsigned char c : s) {
    unsigned l = (c | 32) - 'a'; r |= (unsigned)(l < 26) << (l & 31);
    r |= (unsigned)((unsigned char)(c - '0') < 10) << 30; r |= (unsigned)(c == '_') << 31; dots += c == '.';
  }
  return r;
}
extern "C" void harness() {
  StringHasher<ES> h;
  if (sym_param("MODE", 0) == 0) { // s occurs in p + s + q
    int d = sym_param("DOTS", 0), L = sym_param("L", 2), P = sym_param("P", 1), Q = sym_param("Q", 1);
    std::string s = sym(L), p = sym(P), q = sym(Q);
    if (d) { std::string dots(sym_choose("ds", d + 1), '.'), more(sym_choose("dp", d + 1), '.'); s += dots; p += more; }
    if (sym_param("RUN", 0) & 1) s += run("rl", "rk");
    if (sym_param("RUN", 0) & 2) q += run("ql", "qk");
    std::string all = p + s + q;
    unsigned hs = h(s), ha = h(all);
    sym_observe("hs", hs); sym_observe("ha", ha);
    sym_assert(StringHasher<ES>::may_include(hs, ha), "a string that occurs is never excluded");
    sym_reach("filter");
  } else { // the hash depends on the documented features only
    int n1 = sym_param("L", 2), n2 = sym_param("L2", 2), d = sym_param("DOTS", 0);
    std::string a = sym(n1), b = sym(n2);
    if (d) { a += std::string(sym_choose("da", d + 1), '.'); b = std::string(sym_choose("db", d + 1), '.') + b; }
    if (sym_param("RUN", 0) & 1) a += run("rl", "rk");
    if (sym_param("RUN", 0) & 2) b += run("ql", "qk");
    int da, db; unsigned sa = summary(a, da), sb = summary(b, db);
    unsigned ha = h(a), hb = h(b); sym_observe("ha", ha); sym_observe("hb", hb);
    int ca = da < 15 ? da : 15, cb = db < 15 ? db : 15;
    sym_assert(!((sa == sb) & (ca == cb)) | (ha == hb), "equal features give equal hashes");
    // and they are told apart: a feature of one that the other lacks excludes it
    sym_assert(!(((sa & ~sb) != 0) | (ca > cb)) | !StringHasher<ES>::may_include(ha, hb), "a feature the string lacks excludes the rule");
    sym_reach("features");
  }
}

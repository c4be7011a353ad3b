// What is printed is read back as an equal value.
#include "jbuild.h"
#include "jtext.h"
#include <sstream>
static const char* const templ[] = {
#include "json_templates.inc"
};
using jbuild::Node;
extern "C" void harness() {
  Node* n;
  int S = sym_param("S", 0), L = sym_param("L", 1);
  if (S == 0) n = jbuild::tree(sym_param("D", 1), sym_param("W", 2), L, sym_param("I", 3));
  else if (S == 1) n = jbuild::strNode(jbuild::symString(L));
  else if (S == 2) { n = jbuild::mk(jref::Obj); std::string k = jbuild::symString(L); jbuild::put(n, k, jbuild::strNode(jbuild::symString(1))); }
  else if (S == 3) { // many elements, one of them symbolic
    n = jbuild::mk(jref::Arr); int m = sym_param("M", 40);
    for (int k = 0; k < m; k++) jbuild::add(n, k == m / 2 ? jbuild::strNode(jbuild::symString(2)) : jbuild::intNode(jbuild::ints[k % 10])); }
  else if (S == 4) { // many keys, a symbolic one among them
    n = jbuild::mk(jref::Obj); int m = sym_param("M", 30); char b[16];
    for (int k = 0; k < m; k++) { snprintf(b, 16, "k%d", k); jbuild::put(n, b, jbuild::intNode(jbuild::ints[k % 10])); }
    jbuild::put(n, jbuild::symString(1), jbuild::mk(jref::Bool)); }
  else if (S == 5) { // deep nesting
    n = jbuild::strNode(jbuild::symString(1)); int m = sym_param("M", 12);
    for (int k = 0; k < m; k++) { Node* p = jbuild::mk(k % 2 ? jref::Arr : jref::Obj); if (k % 2) { jbuild::add(p, jbuild::intNode("7")); jbuild::add(p, n); } else jbuild::put(p, "key", n); n = p; } }
  else if (S == 6) { // a long string around a symbolic window
    std::string s(sym_param("M", 300), 'a'); std::string w = jbuild::symString(L); s.insert(sym_param("M", 300) / 2, w); n = jbuild::strNode(s); }
  else { // an integer with one symbolic byte (POS: its position) or, POS < 0, a symbolic magnitude of B bits
    int pos = sym_param("POS", 0); bool neg = sym_choose("neg", 2);
    eni::s256 x = 0;
    if (pos < 0) { uint16_t m; sym_bytes("m", &m, 2); sym_assume(m < (1u << sym_param("B", 12))); x = m; }
    else {
      int fill = sym_param("FILL", 0), top = sym_param("TOP", pos); uint8_t m; sym_bytes("m", &m, 1); if (pos == 31) sym_assume(m < 128);
      for (int k = top; k >= 0; k--) { x <<= 8; x |= k == pos ? (unsigned)m : (unsigned)(fill == 256 ? k * 29 & 255 : fill); }
    }
    if (neg) x = -x;
    json::Value v(x); std::ostringstream os; v.print(os); std::string t = os.str();
    sym_observe_bytes("text", t.data(), t.size());
    size_t sg = t.size() && t[0] == '-'; sym_assert(sg == (neg & (x != 0)), "a minus sign exactly for negative values");
    sym_assert(t.size() > sg, "at least one digit");
    sym_assert((t[sg] != '0') | (t.size() == 1), "no leading zero");
    bool dig = true; for (size_t k = sg; k < t.size(); k++) dig &= (unsigned char)(t[k] - '0') < 10;
    sym_assert(dig, "decimal digits");
    Node d = {}; d.ty = jref::Int; d.neg = sg; d.s = (unsigned char*)t.data() + sg; d.n = t.size() - sg;
    sym_assert(jref::sameInt(x, &d), "the text denotes the integer");
    json::Parser p(t); sym_assert((bool)p && p.getRoot().isInteger() && p.getRoot().toInteger() == x, "the integer written is read back");
    sym_reach("int"); sym_end();
  }
  json::Value v = jbuild::value(n);
  sym_assert(!jref::differ(v, n), "a value built through the API has the content it was built with");
  std::ostringstream os; v.print(os);
  std::string t = os.str();
  sym_observe("size", t.size());
  json::Parser p(t);
  sym_assert((bool)p, "the printed text is accepted");
  int bad = jref::differ(p.getRoot(), n);
  sym_assert(!bad, "the value read back equals the value printed");
  std::ostringstream o2; p.getRoot().print(o2);
  if (n->ty != jref::Obj && n->ty != jref::Arr) sym_assert(o2.str() == t, "printing again gives the same text");
  sym_reach("done");
}

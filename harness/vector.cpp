// Histories of a vector against a reference sequence.
#include "sym.h"
#include <cstring>
#include <stdexcept>
#include <vector>
#include <adt/Vector.h>
namespace {
#ifdef ODD
struct E { unsigned char a, b, c; E() : a(0), b(0), c(0) {} explicit E(unsigned char x) : a(x), b(x ^ 0x5a), c(7) {} bool operator==(const E& o) const { return (a == o.a) & (b == o.b) & (c == o.c); } };
#else
typedef int E;
#endif
typedef eni::Vector<E> Vec;
struct Seq { E a[64]; size_t n; Seq() : n(0) {} 
  void ins(size_t at, const E* x, size_t k) { E t[64]; for (size_t i = 0; i < k; i++) t[i] = x[i]; for (size_t i = n; i-- > at;) a[i + k] = a[i]; for (size_t i = 0; i < k; i++) a[at + i] = t[i]; n += k; }
  void del(size_t f, size_t l) { for (size_t i = l; i < n; i++) a[f + i - l] = a[i]; n -= l - f; }
  void fill(size_t at, size_t k, E x) { E t[64]; for (size_t i = 0; i < k; i++) t[i] = x; ins(at, t, k); } };
E fresh() { unsigned char b; sym_bytes("x", &b, 1); return E(b); }
uint64_t sym64(const char* n) { uint64_t v; sym_bytes(n, &v, 8); return v; }
void check(Vec& v, const Seq& r, int at = 0) {
  const Vec& c = v;
  sym_assert(v.size() == r.n, "the size is that of the sequence"); sym_assert(v.empty() == (r.n == 0), "emptiness is that of the sequence");
  sym_assert(v.capacity() >= r.n && v.max_size() >= r.n, "the capacity holds the sequence");
  for (size_t i = 0; i < r.n; i++) {
    sym_assert(v[i] == r.a[i] && c[i] == r.a[i], "indexing gives the element"); sym_assert(v.at(i) == r.a[i] && c.at(i) == r.a[i], "at gives the element"); sym_assert(v.data()[i] == r.a[i], "data gives the elements"); }
  if (r.n) sym_assert(v.front() == r.a[0] && v.back() == r.a[r.n - 1], "front and back give the first and last element");
  size_t k = 0; for (Vec::iterator it = v.begin(); it != v.end(); ++it, ++k) sym_assert(k < r.n && *it == r.a[k], "iteration gives the elements in order"); sym_assert(k == r.n, "iteration visits every element");
  k = 0; for (Vec::const_iterator it = c.begin(); it != c.end(); ++it, ++k) sym_assert(k < r.n && *it == r.a[k], "const iteration gives the elements in order"); sym_assert(k == r.n, "const iteration visits every element");
  if (!at) return;
  uint64_t i = sym64("at"); bool out = false; E got = E(0);
  try { got = at == 1 ? c.at(i) : v.at(i); } catch (const std::out_of_range&) { out = true; }
  sym_assert(out == (i >= r.n), "a position outside the sequence, and only that, raises an out-of-range error");
  if (!out) { i = sym_concretize(i); sym_assert(got == r.a[i], "at gives the element"); }
}
template <class F> int attempt(F f) { try { f(); } catch (const std::out_of_range&) { return 1; } catch (const std::length_error&) { return 2; } return 0; }
int SYM = 1;
uint64_t over(Vec& v, const Seq& r) { if (!SYM) return sym_choose("huge", 2) ? ~0ULL : (uint64_t)v.max_size() + 1; uint64_t x = sym64("huge"); sym_assume(x > v.max_size()); return x; }
}
static void history() {
  int M = sym_param("M", 2), N0 = sym_param("N0", -1), lo = sym_param("LO", 0), hi = sym_param("HI", 20), SP = sym_param("SPARE", -1);
  SYM = sym_param("SYM", 1);
  int n0 = N0 >= 0 ? N0 : sym_choose("n0", 4); Seq r; for (int k = 0; k < n0; k++) r.a[r.n++] = fresh();
  Vec* v; std::vector<E> sv(r.a, r.a + r.n);
  switch (sym_param("CTOR", -1) >= 0 ? sym_param("CTOR", -1) : sym_choose("ctor", 5)) {
    case 0: v = new Vec(); for (size_t k = 0; k < r.n; k++) v->push_back(r.a[k]); break;
    case 1: v = new Vec(r.n); for (size_t k = 0; k < r.n; k++) { sym_assert((*v)[k] == E(), "the elements of a sized vector are zero"); (*v)[k] = r.a[k]; } break;
    case 2: v = new Vec(sv); break;
    case 3: { E x = fresh(); v = new Vec(r.n, x); for (size_t k = 0; k < r.n; k++) r.a[k] = x; break; }
    default: if (r.n == 0) v = new Vec({}); else if (r.n == 1) v = new Vec({r.a[0]}); else if (r.n == 2) v = new Vec({r.a[0], r.a[1]}); else { v = new Vec({r.a[0], r.a[1], r.a[2]}); for (size_t k = 3; k < r.n; k++) v->push_back(r.a[k]); } break;
  }
  if (SP < 0 ? sym_choose("spare", 2) : SP) v->reserve(r.n + 2);
  Vec other({E(1), E(2), E(3)}); const E oe[3] = {E(1), E(2), E(3)};
  for (int m = 0; m < M; m++) {
    static const char* const nm[] = {"op0", "op1", "op2", "op3", "op4"};
    int op = lo + sym_choose(nm[m], hi - lo);
    // an element argument: a new value, or an element of the vector itself
    auto pick = [&](size_t& own) -> bool { own = 0; if (r.n == 0) return false; unsigned k = sym_choose("own", (r.n < 2 ? r.n : 2) + 1); if (k == 0) return false; own = k == 1 ? r.n - 1 : 0; return true; };
    auto keep = [&](int err, int want) { sym_assert(err == want, want == 0 ? "a valid request succeeds" : want == 1 ? "a position outside the sequence raises an out-of-range error" : "a request beyond the maximum size raises a length error"); };
    size_t own; E x;
    // a position: any 64-bit value, or (to keep longer histories short) one of those up to two past the end and the largest
    auto pos = [&](const char* nm) -> uint64_t { if (SYM) return sym64(nm); unsigned k = sym_choose(nm, r.n + 3); return k == r.n + 2 ? ~0ULL : k; };
#define VALUE bool al = pick(own); E xf = al ? E() : fresh(); x = al ? r.a[own] : xf; const E& arg = al ? (*v)[own] : xf;
    if (op == 0) { VALUE; v->push_back(arg); r.ins(r.n, &x, 1); }
    else if (op == 1) { VALUE; v->emplace_back(arg); r.ins(r.n, &x, 1); }
    else if (op == 2) { if (r.n) { E got = v->pop_back(); sym_assert(got == r.a[r.n - 1], "pop gives the last element"); r.n--; } }
    else if (op == 3) { VALUE; uint64_t i = pos("i"); int e = attempt([&] { v->insert((size_t)i, arg); }); keep(e, i > r.n ? 1 : 0); if (!e) r.ins(sym_concretize(i), &x, 1); }
    else if (op == 4) { VALUE; uint64_t i = pos("i"); bool big = sym_choose("big", 2); uint64_t k = big ? over(*v, r) - r.n : sym_choose("k", 3); int e = attempt([&] { v->insert((size_t)i, (size_t)k, arg); }); keep(e, i > r.n ? 1 : big ? 2 : 0); if (!e) r.fill(sym_concretize(i), k, x); }
    else if (op == 5) { // a range of another vector, or of the vector itself
      uint64_t i = pos("i"); bool self = sym_choose("self", 2); size_t f, l; const E* src; Seq rs = r;
      if (self) { f = r.n ? sym_choose("f", r.n < 3 ? r.n : 3) : 0; l = sym_choose("l", 2) ? r.n : f + (f < r.n); src = rs.a; } else { f = sym_choose("f", 2); l = f + sym_choose("len", 3); src = oe; }
      const Vec& from = self ? *v : other; int e = attempt([&] { v->insert((size_t)i, from.begin() + f, from.begin() + l); }); keep(e, i > r.n ? 1 : 0); if (!e) r.ins(sym_concretize(i), src + f, l - f); }
    else if (op == 6) { uint64_t i = pos("i"); E y = fresh(); bool two = sym_choose("two", 2); int e = attempt([&] { if (two) v->insert((size_t)i, {y, E(9)}); else v->insert((size_t)i, std::initializer_list<E>()); }); keep(e, i > r.n ? 1 : 0); E t[2] = {y, E(9)}; if (!e) r.ins(sym_concretize(i), t, two ? 2 : 0); }
    else if (op == 7) { // by iterator
      size_t i = sym_choose("it", r.n + 1); VALUE; int kind = sym_choose("kind", 4); Vec::iterator at = v->begin() + i, got = at; const Vec& co = other;
      if (kind == 0) { got = v->insert(at, arg); r.ins(i, &x, 1); } else if (kind == 1) { size_t k = sym_choose("k", 3); got = v->insert(at, k, arg); r.fill(i, k, x); }
      else if (kind == 2) { got = v->insert(at, co.begin(), co.end()); r.ins(i, oe, 3); } else { got = v->insert(at, {x, x}); r.fill(i, 2, x); }
      sym_assert(got - v->begin() == (long)i, "insert gives the position of the first new element"); }
    else if (op == 8) { uint64_t i = pos("i"); int e = attempt([&] { v->erase((size_t)i); }); keep(e, i >= r.n ? 1 : 0); if (!e) { i = sym_concretize(i); r.del(i, i + 1); } }
    else if (op == 9) { uint64_t i = pos("i"), j = pos("j"); sym_assume(i != j); int e = attempt([&] { v->erase((size_t)i, (size_t)j); }); keep(e, (i > j) | (j > r.n) ? 1 : 0); if (!e) { i = sym_concretize(i); j = sym_concretize(j); r.del(i, j); } }
    else if (op == 10) { if (r.n) { size_t i = sym_choose("f", r.n), j = i + 1 + sym_choose("l", r.n - i); bool one = sym_choose("one", 2); if (one) j = i + 1; Vec::iterator got = one ? v->erase(v->begin() + i) : v->erase(v->begin() + i, v->begin() + j); r.del(i, j); sym_assert(got - v->begin() == (long)i, "erase gives the position after the erased elements"); } }
    else if (op == 11) { VALUE; bool big = sym_choose("big", 2); uint64_t k = big ? over(*v, r) : sym_choose("k", 5); int e = attempt([&] { v->assign((size_t)k, arg); }); keep(e, big ? 2 : 0); if (!e) { r.n = 0; r.fill(0, k, x); } }
    else if (op == 12) { bool self = sym_choose("self", 2); size_t f, l; const E* src; Seq rs = r; if (self) { f = r.n ? sym_choose("f", r.n) : 0; l = f + (r.n ? sym_choose("l", r.n - f + 1) : 0); src = rs.a; } else { f = sym_choose("f", 2); l = f + sym_choose("len", 3); src = oe; }
      const Vec& from = self ? *v : other; v->assign(from.begin() + f, from.begin() + l); r.n = 0; r.ins(0, src + f, l - f); }
    else if (op == 13) { E y = fresh(); int w = sym_choose("il", 4); E t[2] = {y, E(8)}; if (w == 0) v->assign({y, E(8)}); else if (w == 1) v->assign({y}); else if (w == 2) { Vec& z = (*v = {y, E(8)}); sym_assert(&z == v, "assignment gives the vector"); } else v->assign(std::initializer_list<E>()); r.n = 0; r.ins(0, t, w == 1 ? 1 : w == 3 ? 0 : 2); }
    else if (op == 14) { VALUE; bool val = sym_choose("val", 2), big = sym_choose("big", 2); uint64_t k = big ? over(*v, r) : sym_choose("k", 6); int e = attempt([&] { if (val) v->resize((size_t)k, arg); else v->resize((size_t)k); }); keep(e, big ? 2 : 0); if (!e) { size_t had = r.n; if (k < r.n) r.n = k; else r.fill(r.n, k - had, val ? x : E()); } }
    else if (op == 15) { bool big = sym_choose("big", 2); uint64_t k = big ? over(*v, r) : sym_choose("k", 7); int e = attempt([&] { v->reserve((size_t)k); }); keep(e, big ? 2 : 0); if (!e) sym_assert(v->capacity() >= k, "reserve gives the capacity asked for"); v->shrink_to_fit(); }
    else if (op == 16) { Vec o2(other); Seq q; q.ins(0, oe, 3); bool e = sym_choose("empty", 2); if (e) { o2.clear(); q.n = 0; } v->swap(o2); check(o2, r); r = q; }
    else if (op == 17) { v->clear(); r.n = 0; }
    else if (op == 18) { Vec* w = new Vec(*v); Seq before = r; if (r.n) { (*v)[0] = E(99); v->push_back(E(98)); before.a[0] = E(99); } else v->push_back(E(98)); before.fill(before.n, 1, E(98)); check(*v, before); delete v; v = w; }
    else if (op == 19) { int w = sym_choose("from", 3); if (w == 0) { Vec& s = *v; Vec& z = (*v = s); sym_assert(&z == v, "assignment gives the vector"); } else if (w == 1) { Vec o2(other); *v = o2; o2[0] = E(50); o2.push_back(E(51)); r.n = 0; r.ins(0, oe, 3); } else { Vec none; *v = none; r.n = 0; } }
    sym_reach(nm[m]);
  }
  check(*v, r);
  v->push_back(E(5)); r.fill(r.n, 1, E(5)); check(*v, r, SYM ? 1 + r.n % 2 : 0); // still usable
  if (sym_param("BAD", 0)) { uint64_t k = over(*v, r); int e = attempt([&] { Vec w((size_t)k); }); sym_assert(e == 2, "constructing beyond the maximum size raises a length error"); e = attempt([&] { Vec w((size_t)k, E(1)); }); sym_assert(e == 2, "constructing beyond the maximum size raises a length error"); sym_reach("too big"); }
  sym_observe("n", v->size()); for (size_t k = 0; k < r.n; k++) { E z = (*v)[k]; sym_observe_bytes("e", &z, sizeof z); }
  delete v; sym_reach("done");
}
extern "C" void harness() {
  size_t before = sym_heap(); history();
  if (sym_param("LEAK", 0)) { sym_assert(sym_heap() == before, "a destroyed vector has released every block it allocated"); sym_reach("released"); }
}

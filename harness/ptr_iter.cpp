// Laws of the pointer iterator over an array, positions and offsets symbolic.
#include "sym.h"
#include <cstring>
#include <utility>
#include <iterator>
#include <adt/PointerIterator.h>
namespace {
struct Odd { unsigned char a, b, c; };
struct Wide { uint64_t w; unsigned char a; };
template <class T> unsigned tag(const T& x) { return x.a; }
template <class T> struct Elem { T v; };
inline unsigned get(const unsigned char& x) { return x; } inline void put(unsigned char& x, unsigned k) { x = k; }
inline unsigned get(const int& x) { return x & 0xff; } inline void put(int& x, unsigned k) { x = k; }
inline unsigned get(const Odd& x) { return x.b; } inline void put(Odd& x, unsigned k) { x.b = k; }
inline unsigned get(const Wide& x) { return x.a; } inline void put(Wide& x, unsigned k) { x.a = k; }
const int Max = 40; int N;
int64_t pos(const char* n) { unsigned char b; sym_bytes(n, &b, 1); sym_assume(b <= N); return b; }
int64_t off(const char* n) { int64_t v; sym_bytes(n, &v, 8); return v; }
template <class It> int64_t place(It& it, const void* base, size_t sz) { return ((const char*)((const It&)it).operator->() - (const char*)base) / (int64_t)sz; }
template <class T> void laws(T* a) {
  typedef eni::PointerIterator<T> It;
  int64_t i = pos("i"), j = pos("j"), k = off("k");
  It p(a + i), q(a + j); const It cp(a + i), cq(a + j);
  It none((T*)0); sym_assert(none.operator->() == (T*)0, "an iterator over nothing stands nowhere");
  // the six comparisons and the difference agree with the positions
  sym_assert((p == q) == (i == j) && (cp == cq) == (i == j), "iterators are equal exactly when their positions are");
  sym_assert((p != q) == (i != j) && (cp != cq) == (i != j), "iterators differ exactly when their positions do");
  sym_assert((p < q) == (i < j), "less agrees with positions"); sym_assert((p > q) == (i > j), "greater agrees with positions");
  sym_assert((p <= q) == (i <= j), "less or equal agrees with positions"); sym_assert((p >= q) == (i >= j), "greater or equal agrees with positions");
  sym_assert((cp < cq) == (i < j) && (cp > cq) == (i > j) && (cp <= cq) == (i <= j) && (cp >= cq) == (i >= j), "comparisons of constant iterators agree with positions");
  sym_assert(p - q == i - j && q - p == j - i, "the difference is that of the positions");
  sym_assert(p - p == 0 && p == p && p <= p && p >= p && !(p < p) && !(p > p) && !(p != p), "an iterator is level with itself");
  // movement by an offset, in either direction
  sym_assume((i + k >= 0) & (i + k <= N) & (k <= Max) & (k >= -Max));
  { It r = p + k; sym_assert(place(r, a, sizeof(T)) == i + k, "adding an offset moves by it"); sym_assert(place(p, a, sizeof(T)) == i, "adding leaves the operand"); sym_assert(r - p == k, "the difference undoes the addition");
    It s = r - k; sym_assert(s == p && place(s, a, sizeof(T)) == i, "subtracting the offset moves back"); sym_assert(place(r, a, sizeof(T)) == i + k, "subtracting leaves the operand");
    It t(p); It& u = (t += k); sym_assert(&u == &t && t == r, "adding in place moves by the offset and gives the iterator"); It& w = (t -= k); sym_assert(&w == &t && t == p, "subtracting in place moves back and gives the iterator");
    It z(q); It& y = (z = r); sym_assert(&y == &z && z == r && place(z, a, sizeof(T)) == i + k, "assignment gives an equal iterator"); z += -k; sym_assert(z == p && place(r, a, sizeof(T)) == i + k, "copies move independently"); z = z; sym_assert(z == p, "self-assignment changes nothing");
    sym_assert((r < p) == (k < 0) && (r > p) == (k > 0) && (r == p) == (k == 0), "comparisons follow the offset"); }
  if (i < N) { It r = p; It& s = ++r; sym_assert(&s == &r && place(r, a, sizeof(T)) == i + 1, "increment moves one on"); It t = p; It u = t++; sym_assert(u == p && t == r, "post-increment gives the old position and moves one on");
    It& w = --r; sym_assert(&w == &r && r == p, "decrement moves one back"); It y = t--; sym_assert(place(y, a, sizeof(T)) == i + 1 && t == p, "post-decrement gives the old position and moves one back");
    const It c(p); sym_assert(get(*c) == 3 * i + 1 && get(*p) == 3 * i + 1 && &*c == a + i && &*p == a + i && c.operator->() == a + i && p.operator->() == a + i, "dereferencing gives the element at the position"); sym_reach("dereferenced"); }
  if (i + k < N) { sym_assert(get(p[k]) == 3 * (i + k) + 1 && &p[k] == a + (i + k), "indexing gives the element at the offset"); sym_reach("indexed"); }
}
template <class T> void write(T* a) {
  typedef eni::PointerIterator<T> It; T b[Max]; memcpy(b, a, sizeof(T) * N);
  int64_t i = pos("at"); sym_assume(i < N); unsigned char v; sym_bytes("v", &v, 1); It p(a + i); int how = sym_choose("write", 3);
  if (how == 0) put(*p, v); else if (how == 1) put(*p.operator->(), v); else { It z(a); put(z[i], v); }
  put(b[i], v); for (int x = 0; x < N; x++) sym_assert(get(a[x]) == get(b[x]), "writing changes exactly the element stood on"); sym_reach("written");
}
template <class T> void walk(T* a) { // a sequence of moves from a position
  typedef eni::PointerIterator<T> It; int M = sym_param("M", 3); int64_t i = sym_choose("start", N + 1); It p(a + i);
  static const char* const nm[] = {"m0", "m1", "m2", "m3", "m4", "m5"};
  for (int m = 0; m < M; m++) { int op = sym_choose(nm[m], 8);
    if (op == 0 && i < N) { ++p; i++; } else if (op == 1 && i < N) { It o = p++; sym_assert(place(o, a, sizeof(T)) == i, "post-increment gives the old position"); i++; }
    else if (op == 2 && i > 0) { --p; i--; } else if (op == 3 && i > 0) { It o = p--; sym_assert(place(o, a, sizeof(T)) == i, "post-decrement gives the old position"); i--; }
    else if (op == 4) { p += N - i; i = N; } else if (op == 5) { p -= i; i = 0; } else if (op == 6) { It o = p + (N - i); p = o; i = N; } else if (op == 7) { It o(p - i); p = o; i = 0; }
    sym_assert(place(p, a, sizeof(T)) == i, "the position is the sum of the moves"); if (i < N) sym_assert(get(*p) == 3 * i + 1, "the element is that of the position"); }
  sym_reach("walked");
}
template <class T> void far() { // positions anywhere in the address space; nothing is dereferenced
  typedef eni::PointerIterator<T> It; int64_t i, j, k; sym_bytes("fi", &i, 8); sym_bytes("fj", &j, 8); sym_bytes("fk", &k, 8);
  const int64_t top = (int64_t)1 << 44; sym_assume((i >= 0) & (i < top) & (j >= 0) & (j < top) & (k > -top) & (k < top) & (i + k >= 0) & (i + k < top));
  T* z = (T*)(uintptr_t)0x10000; It p((T*)((uintptr_t)z + i * sizeof(T))), q((T*)((uintptr_t)z + j * sizeof(T))); const It cp(p), cq(q);
  auto at = [&](const It& x) { return (uintptr_t)x.operator->() - (uintptr_t)z; };
  sym_assert(p - q == i - j, "the difference of far positions is that of the positions");
  sym_assert((p == q) == (i == j) && (p != q) == (i != j) && (p < q) == (i < j) && (p > q) == (i > j) && (p <= q) == (i <= j) && (p >= q) == (i >= j), "comparisons of far positions agree with the positions");
  sym_assert((cp == cq) == (i == j) && (cp != cq) == (i != j) && (cp < cq) == (i < j) && (cp > cq) == (i > j) && (cp <= cq) == (i <= j) && (cp >= cq) == (i >= j), "comparisons of constant far positions agree with the positions");
  uintptr_t to = (i + k) * sizeof(T); It r = p + k; sym_assert(at(r) == to, "adding a far offset moves by it"); It s = r - k; sym_assert(at(s) == i * sizeof(T), "subtracting a far offset moves by it");
  It t(p); t += k; sym_assert(at(t) == to, "adding a far offset in place moves by it"); t -= k; sym_assert(at(t) == i * sizeof(T), "subtracting a far offset in place moves by it");
  sym_assert((uintptr_t)&p[k] - (uintptr_t)z == to, "indexing by a far offset gives the element there"); sym_reach("far");
}
template <class T> void all() {
  if (sym_param("FAR", 0)) { far<T>(); return; }
  T a[Max]; memset(a, 0, sizeof a); for (int k = 0; k < Max; k++) put(a[k], 3 * k + 1);
  int mode = sym_choose("part", 4);
  if (mode == 0) laws<T>(a); else if (mode == 1) write<T>(a); else if (mode == 2) walk<T>(a);
  else { typedef eni::PointerIterator<const T> It; const T* c = a; int64_t i = pos("i"), j = pos("j"); It p(c + i), q(c + j); sym_assert(p - q == i - j && (p < q) == (i < j) && (p == q) == (i == j), "iterators over constant elements agree with positions");
    if (i < N) { It r(c[i]); sym_assert(r == p, "an iterator made from an element stands on it"); sym_assert(get(*p) == 3 * i + 1, "dereferencing gives the element"); It o = p++; sym_assert(o == r && p - o == 1, "post-increment moves one on"); }
    }
}
}
extern "C" void harness() {
  N = sym_param("N", 12); int t = sym_param("TYPE", 0);
  if (t == 0) all<unsigned char>(); else if (t == 1) all<int>(); else if (t == 2) all<Odd>(); else all<Wide>();
}

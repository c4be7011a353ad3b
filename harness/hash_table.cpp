// Histories of two hash tables against a reference map. CHECK 1: as a map, 2: iteration.
#include "sym.h"
#include <cstring>
#include <adt/HashTable.h>
namespace {
const int MaxK = 36;
uint32_t HV[MaxK];                                                    // the hash value of each key
struct Hasher { uint32_t operator()(const int& k) const { return HV[k]; } };
typedef eni::HashTable<int, int, Hasher> Table;
struct Ref { bool in[MaxK]; int v[MaxK]; int n() const { int c = 0; for (int k = 0; k < MaxK; k++) c += in[k]; return c; } };
int K;
void checkMap(Table* t, const Ref& r) {
  const Table* c = t;
  sym_assert(t->numOfEntries() == (size_t)r.n(), "the entry count is that of the map");
  sym_assert(t->empty() == (r.n() == 0), "emptiness is that of the map");
  for (int k = 0; k < K; k++) {
    Table::iterator it = t->find(k);
    if (!r.in[k]) { sym_assert(it == t->end(), "an absent key is not found"); sym_assert(c->find(k) == c->end(), "an absent key is not found (const)"); continue; }
    sym_assert(it != t->end(), "a key of the map is found");
    sym_assert(it->key() == k, "the entry found has the key");
    sym_assert(it->value() == r.v[k], "the entry found has the value last stored");
    Table::const_iterator ci = c->find(k);
    sym_assert(ci != c->end() && ci->key() == k && ci->value() == r.v[k], "const lookup agrees");
  }
}
template <class T, class It> void walk(T* t, const Ref& r, int post) {
  int seen[MaxK] = {0}, steps = 0;
  It it = t->begin(), e = t->end(), twin = t->begin();
  while (it != e) {
    sym_assert(++steps <= MaxK, "iteration visits no more than the live entries");
    int k = it->key();
    sym_assert(k >= 0 && k < K && r.in[k], "iteration visits only live entries");
    sym_assert(it->value() == r.v[k] && (*it).key() == k, "iteration shows the entry's key and value");
    seen[k]++;
    sym_assert(twin == it && !(twin != it), "two iterators at one entry are equal"); ++twin; sym_assert(twin != it && !(twin == it), "iterators at different entries differ");
    if (post) { It old = it++; sym_assert(old->key() == k, "post-increment gives the old position"); } else { It& x = ++it; sym_assert(&x == &it, "pre-increment gives the iterator"); }
  }
  for (int k = 0; k < K; k++) sym_assert(seen[k] == (int)r.in[k], "iteration visits each live entry exactly once");
}
template <class T, class It> void chain(T* t, const Ref& r, int key, int post) {
  int seen[MaxK] = {0}, steps = 0;
  It it = t->begin(key), e = t->end(key), twin = t->begin(key);
  while (it != e) {
    sym_assert(++steps <= MaxK, "a chain is no longer than the live entries");
    int k = it->key(); sym_assert(k >= 0 && k < K && r.in[k], "a chain visits only live entries");
    sym_assert(it->value() == r.v[k], "a chain shows the entry's value");
    sym_assert(twin == it && !(twin != it), "two iterators at one entry of a chain are equal"); ++twin; sym_assert(twin != it && !(twin == it), "iterators at different entries of a chain differ");
    seen[k]++; if (post) it++; else ++it;
  }
  int len = 0;
  for (int k = 0; k < K; k++) { bool want = r.in[key] && r.in[k] && HV[k] == HV[key]; sym_assert((bool)seen[k] == want && seen[k] < 2, "the chain of a key visits exactly the live entries of its hash, once each"); len += seen[k]; }
  sym_assert(t->count(key) == (size_t)len, "the count of a key is the length of its chain");
}
void checkIter(Table* t, const Ref& r, int how) {
  if (how == 0) walk<Table, Table::iterator>(t, r, 0); else if (how == 1) walk<Table, Table::iterator>(t, r, 1);
  else if (how == 2) walk<const Table, Table::const_iterator>(t, r, 0); else walk<const Table, Table::const_iterator>(t, r, 1);
  for (int k = 0; k < K; k++) if (how & 2) chain<const Table, Table::const_chain_iterator>(t, r, k, how & 1); else chain<Table, Table::chain_iterator>(t, r, k, how & 1);
}
bool insert(Table* t, Ref& r, int k, int v) {
  bool ex = !r.in[k]; Table::entry_type* e = t->insert(k, ex);
  sym_assert(e != nullptr && e->key() == k, "insert gives the entry of the key");
  sym_assert(ex == r.in[k], "insert reports whether the key was there");
  if (ex) sym_assert(e->value() == r.v[k], "insert of a present key gives its entry");
  e->setValue(v); r.in[k] = true; r.v[k] = v; return ex;
}
}
static void history() {
  int CHECK = sym_param("CHECK", 1), M = sym_param("M", 3), PRE = sym_param("PRE", 0), ER = sym_param("ER", 0), HM = sym_param("HM", 1), only = sym_param("OPS", 0xfff);
  K = sym_param("K", 3); int free = K - PRE;
  // the hashes: 52 symbolic values from HI on (every combination of residues modulo 3 and 17), or from a set that collides in every way modulo 3 and 17
  static const uint32_t few[] = {0, 2, 17, 0xffffffffu, 16, 0x80000000u};
  if (HM == 0) for (int k = 0; k < K; k++) { unsigned char b; sym_bytes("hash", &b, 1); sym_assume(b < 52); HV[k] = (uint32_t)sym_param("HI", 0) + b; }
  else for (int k = 0; k < K; k++) HV[k] = k < PRE ? (HM == 2 ? 5u : HM == 3 ? (uint32_t)k * 17u + 16u : (uint32_t)k * 0x9e3779b1u) : few[sym_choose("hash", sym_param("H", 4))];
  static const int sizes[] = {3, 1, 0, 100};
  int sz = sym_param("SZ", -1); if (sz < 0) sz = sym_choose("size", 3);
  Table* T[2] = {new Table(sizes[sz]), new Table()}; Ref R[2]; memset(R, 0, sizeof R);
  for (int k = 0; k < PRE; k++) insert(T[0], R[0], k, 100 + k);
  for (int k = 0; k < ER; k++) { sym_assert(T[0]->erase(k), "erase reports that the key was there"); R[0].in[k] = false; }
  if (int rounds = sym_param("CHURN", 0)) { // keys come and go; what stays in the table is few
    int P = sym_param("P", 2), step = 1 + sym_choose("step", sym_param("S", 3)), at = sym_choose("from", sym_param("F", 1)), live = sym_choose("live", 2) ? 1 : 0;
    for (int n = 0; n < rounds; n++) {
      int k = n % P; HV[k] = (uint32_t)(at + n * step); insert(T[0], R[0], k, n);
      int d = live ? (n + 1) % P : k; if (R[0].in[d]) { sym_assert(T[0]->erase(d), "erase reports that the key was there"); R[0].in[d] = false; }
      if (n % sym_param("EVERY", 1) == 0) { checkMap(T[0], R[0]); if (CHECK & 2) checkIter(T[0], R[0], n & 3); }
    }
    M = 0; sym_reach("churned");
  }
  unsigned char nv[8]; sym_bytes("values", nv, 8);
  for (int m = 0; m < M; m++) {
    static const char* const nm[] = {"op0", "op1", "op2", "op3", "op4", "op5", "op6", "op7"};
    int ops[16], n = 0; for (int o = 0; o < 12; o++) if (only >> o & 1) ops[n++] = o;
    int op = ops[sym_choose(nm[m], n)];
    switch (op) {
      case 0: { int k = PRE - ER > 0 && sym_param("OLD", 0) ? sym_choose("key", free + 1) : sym_choose("key", free); k = k == free ? ER : PRE + k; insert(T[0], R[0], k, nv[m]); break; }
      case 1: { int k = PRE > 0 ? sym_choose("key", free + 1) : sym_choose("key", free); k = k == free ? ER : PRE + k; bool had = T[0]->erase(k); sym_assert(had == R[0].in[k], "erase reports whether the key was there"); R[0].in[k] = false; break; }
      case 2: T[0]->clear(); memset(&R[0], 0, sizeof(Ref)); break;
      case 3: T[0]->rehash(); break;
      case 4: { static const unsigned to[] = {0, 1, 2, 3, 5, 40}; T[0]->rehash(to[sym_choose("to", 6)]); break; }
      case 5: { delete T[1]; T[1] = new Table(*T[0]); R[1] = R[0]; break; }
      case 6: { delete T[1]; T[1] = new Table(std::move(*T[0])); R[1] = R[0]; memset(&R[0], 0, sizeof(Ref)); break; }
      case 7: { Table& x = (*T[1] = *T[0]); sym_assert(&x == T[1], "assignment gives the table"); R[1] = R[0]; break; }
      case 8: { Table& x = (*T[1] = std::move(*T[0])); sym_assert(&x == T[1], "assignment gives the table"); R[1] = R[0]; memset(&R[0], 0, sizeof(Ref)); break; }
      case 9: { Table* t = T[0]; T[0] = T[1]; T[1] = t; Ref r = R[0]; R[0] = R[1]; R[1] = r; break; }
      case 10: { Table& self = *T[0]; *T[0] = self; break; }
      default: break;
    }
    if (op == 11) break;
  }
  if (CHECK & 1) { checkMap(T[0], R[0]); checkMap(T[1], R[1]); if (R[0].n()) sym_reach("entries"); else sym_reach("empty"); if (T[0]->numOfTombstones()) sym_reach("tombstones"); if (T[0]->numOfBuckets() > 30) sym_reach("grown"); }
  if (CHECK & 2) { int how = sym_choose("how", 4); checkIter(T[0], R[0], how); checkIter(T[1], R[1], how ^ 1); sym_reach("walked"); if (R[0].n() > 1) sym_reach("several"); }
  sym_observe("n", T[0]->numOfEntries()); sym_observe("b", T[0]->numOfBuckets());
  delete T[0]; delete T[1];
}
extern "C" void harness() {
  size_t before = sym_heap(); history();
  if (sym_param("LEAK", 0)) { sym_assert(sym_heap() == before, "a destroyed table has released every block it allocated"); sym_reach("released"); }
}

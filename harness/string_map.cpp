// Histories of a string map against a reference list of keys and values.
#include "sym.h"
#include <cstring>
#include <string>
#include <stdexcept>
#include <adt/StringMap.h>
namespace {
typedef eni::StringMap<int> Map;
const int Max = 24;
struct Ref { std::string key[Max]; int val[Max]; int n = 0; };
std::string key[8]; int K;
bool same(const std::string& a, const std::string& b) {
  if (a.size() != b.size()) return false;
  bool eq = true; for (size_t k = 0; k < a.size(); k++) eq &= a[k] == b[k];
  return eq;
}
int where(const Ref& r, const std::string& k) { for (int i = 0; i < r.n; i++) if (same(r.key[i], k)) return i; return -1; }
void drop(Ref& r, int i) { r.n--; r.key[i] = r.key[r.n]; r.val[i] = r.val[r.n]; }
void store(Map& m, Ref& r, const std::string& k, int v) {
  int i = where(r, k); int& slot = m[k];
  if (i >= 0) { sym_assert(slot == r.val[i], "the writable index gives the value stored under the key"); sym_reach("same"); }
  slot = v;
  if (i < 0) { i = r.n++; r.key[i] = k; } r.val[i] = v;
}
void look(Map& m, const Ref& r, const std::string& k, int how) {
  int i = where(r, k), got = 0; bool thrown = false; const Map& c = m;
  try { got = how == 0 ? m.at(k) : how == 1 ? c.at(k) : how == 2 ? c[k] : 0; }
  catch (const std::out_of_range&) { thrown = true; }
  if (how == 3) { Map::iterator it = m.find(k); thrown = it == m.end(); if (!thrown) { got = it->value(); sym_assert(same(it->key(), k), "find gives the entry of the key"); } }
  sym_assert(thrown == (i < 0), "a lookup of an absent key, and only that, raises an out-of-range error (or finds nothing)");
  if (i >= 0) { sym_assert(got == r.val[i], "a lookup gives the value last stored"); sym_reach("present"); } else sym_reach("absent");
}
void all(Map& m, const Ref& r) {
  sym_assert(m.size() == (size_t)r.n, "the size is the number of distinct keys"); sym_assert(m.empty() == (r.n == 0), "empty exactly without keys");
  int seen[Max] = {0}, steps = 0;
  for (Map::iterator it = m.begin(); it != m.end(); ++it) { sym_assert(++steps <= r.n, "iteration visits each key once"); int i = where(r, it->key()); sym_assert(i >= 0, "a key iterates unchanged"); seen[i]++; sym_assert(it->value() == r.val[i], "a key iterates with its value"); }
  for (int i = 0; i < r.n; i++) sym_assert(seen[i] == 1, "iteration visits each key exactly once");
}
}
static void history() {
  K = sym_param("K", 2); int M = sym_param("M", 3), PRE = sym_param("PRE", 0), only = sym_param("OPS", 0xff); long LONG = sym_param("LONG", 0); int S = sym_param("SHAPE", -1);
  for (int k = 0; k < K; k++) {
    char c; sym_bytes("c", &c, 1); int shape = S >= 0 ? S : sym_choose("shape", 5);
    if (shape == 0) key[k] = std::string(1, c);
    else if (shape == 1) { key[k] = "a"; key[k] += c; }
    else if (shape == 2) key[k] = "";
    else if (shape == 3) { key[k] = std::string(1, c); key[k] += '\0'; }
    else if (shape == 4) { key[k] = std::string("a\0b", 3); key[k] += c; }
    if (LONG) { std::string b(LONG, 'x'); key[k] = shape == 0 ? b + c : shape == 1 ? c + b : shape == 2 ? b : key[k]; }
  }
  Map* m = sym_param("SZ", 8) == 8 ? new Map() : new Map(sym_param("SZ", 8)); Ref r;
  for (int k = 0; k < PRE; k++) { std::string s = "k"; s += (char)('a' + k); store(*m, r, s, k); }
  unsigned char nv[8]; sym_bytes("values", nv, 8);
  for (int j = 0; j < M; j++) {
    static const char* const nm[] = {"op0", "op1", "op2", "op3", "op4", "op5", "op6", "op7"};
    int ops[16], n = 0; for (int o = 0; o < 9; o++) if (only >> o & 1) ops[n++] = o;
    int op = ops[sym_choose(nm[j], n)]; const std::string& k = op < 3 ? key[sym_choose("key", K)] : key[0];
    Ref keep = r; Map* o = m;
    if (op == 0) { store(*m, r, k, nv[j]); continue; }
    if (op == 1) { int i = where(r, k); bool had = m->erase(k); sym_assert(had == (i >= 0), "erase reports whether the key was there"); if (i >= 0) drop(r, i); continue; }
    if (op == 2) { look(*m, r, k, sym_choose("how", 4)); continue; }
    if (op == 7) { Map& self = *m; Map& x = (*m = self); sym_assert(&x == m, "assignment gives the map"); continue; }
    if (op == 8) break;
    // the copies: continue on the copy, after changing the source
    if (op == 3) m = new Map(*o);
    else if (op == 4) m = new Map(std::move(*o));
    else { m = new Map(); int z = sym_choose("target", 2); if (z) { (*m)["old"] = 1; (*m)[key[0]] = 2; } Map& x = op == 5 ? (*m = *o) : (*m = std::move(*o)); sym_assert(&x == m, "assignment gives the map"); }
    if (op == 3 || op == 5) { // independent both ways
      store(*m, r, key[0], 77); for (int k2 = 0; k2 < K; k2++) look(*o, keep, key[k2], 0); sym_assert(o->size() == (size_t)keep.n, "the source of a copy keeps its keys");
      store(*o, keep, key[K - 1], 78); o->erase(key[0]); }
    delete o;
  }
  all(*m, r);
  for (int k = 0; k < K; k++) for (int how = 0; how < 4; how++) look(*m, r, key[k], how);
  for (int k = 0; k < PRE; k++) { std::string s = "k"; s += (char)('a' + k); look(*m, r, s, k & 3); }
  look(*m, r, "b", 0); look(*m, r, "", 1);
  sym_observe("n", m->size()); delete m;
}
extern "C" void harness() {
  size_t before = sym_heap(); history(); for (int k = 0; k < 8; k++) std::string().swap(key[k]);
  if (sym_param("LEAK", 0)) { sym_assert(sym_heap() == before, "a destroyed map has released every block it allocated"); sym_reach("released"); }
}

// Named string hashes against their defining recurrences, and key comparison.
#include "sym.h"
#include <adt/StringHasher.h>
#include <adt/StringHashTable.h>
using namespace eni::internal;
typedef uint32_t U;
static U ref(int f, const signed char* p, size_t n) {
  U h = 0, a = 63689;
  switch (f) {
    case RS: for (size_t i = 0; i < n; i++) { h = h * a + (U)(int)p[i]; a *= 378551u; } return h;
    case JS: h = 1315423911u; for (size_t i = 0; i < n; i++) h ^= (h << 5) + (U)(int)p[i] + (h >> 2); return h;
    case PJW: for (size_t i = 0; i < n; i++) { h = (h << 4) + (U)(int)p[i]; U t = h & 0xF0000000u; h = (h ^ (t >> 24)) & ~(t ? 0xF0000000u : 0u); } return h;
    case ELF: for (size_t i = 0; i < n; i++) { h = (h << 4) + (U)(int)p[i]; U t = h & 0xF0000000u; h = (h ^ (t >> 24)) & ~t; } return h;
    case BKDR: for (size_t i = 0; i < n; i++) h = h * 131u + (U)(int)p[i]; return h;
    case SDBM: for (size_t i = 0; i < n; i++) h = (U)(int)p[i] + (h << 6) + (h << 16) - h; return h;
    case DJB: h = 5381; for (size_t i = 0; i < n; i++) h = (h << 5) + h + (U)(int)p[i]; return h;
    case DEK: h = (U)n; for (size_t i = 0; i < n; i++) h = ((h << 5) ^ (h >> 27)) ^ (U)(int)p[i]; return h;
    case BP: for (size_t i = 0; i < n; i++) h = (h << 7) ^ (U)(int)p[i]; return h;
    case FNV: for (size_t i = 0; i < n; i++) h = (h * 0x811C9DC5u) ^ (U)(int)p[i]; return h;
    case AP: h = 0xAAAAAAAAu; for (size_t i = 0; i < n; i++) h ^= i & 1 ? ~((h << 11) + ((U)(int)p[i] ^ (h >> 5))) : (h << 7) ^ ((U)(int)p[i] * (h >> 3)); return h;
  }
  return 0;
}
template<int F> static U hash(const std::string& s) { StringHasher<F> h; return h(s); }
typedef U (*Fn)(const std::string&);
static const Fn fns[] = {hash<RS>, hash<JS>, hash<PJW>, hash<ELF>, hash<BKDR>, hash<SDBM>, hash<DJB>, hash<DEK>, hash<BP>, hash<FNV>, hash<AP>};
extern "C" void harness() {
  int L = sym_param("L", 4), M = sym_param("M", 0), mode = sym_param("MODE", 0);
  if (mode == 0) {
    int f = sym_choose("f", 11);
    std::string s(M + L, 0); for (int k = 0; k < M; k++) s[k] = (char)(k * 73 + 11);
    if (L) sym_bytes("s", &s[M], L);
    U got = fns[f](s), want = ref(f, (const signed char*)s.data(), s.size());
    sym_observe("h", got);
    sym_assert(got == want, "the hash follows its recurrence");
    std::string t = s; t.reserve(3 * s.size() + 64); sym_assert(fns[f](t) == got, "equal keys hash alike"); sym_reach("hash");
  } else {
    std::string a(L, 0), b(L, 0); if (L) { sym_bytes("a", &a[0], L); sym_bytes("b", &b[0], L); }
    int la = sym_choose("la", L + 1), lb = sym_choose("lb", L + 1); a.resize(la); b.resize(lb);
    bool eq = la == lb; for (int k = 0; k < L; k++) if (k < la && k < lb) eq &= a[k] == b[k];
    StringCompare<std::string> c; sym_assert(c(a, b) == eq, "comparison is byte equality");
    bool z = true, zeq = true; for (int k = 0; k <= L; k++) { char x = k < la ? a[k] : 0, y = k < lb ? b[k] : 0; zeq &= !z | (x == y); z &= (x != 0) & (k < la); }
    StringCompare<const char*> d; StringCompare<char*> e;
    std::string a2 = a, b2 = b;
    sym_assert(d(a.c_str(), b.c_str()) == zeq, "comparison of C strings is equality of their bytes");
    sym_assert(e(&a2[0], &b2[0]) == zeq, "comparison of C strings is equality of their bytes");
    sym_reach("compare");
  }
}

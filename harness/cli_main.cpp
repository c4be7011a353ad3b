// Both command-line tools with every outcome of loading, symbol lookup and the call.
#include <string>
#include <iostream>
#include <sstream>
#include <stdlib.h>
#include <string.h>
#include "sym.h"
int run_main(int, char**); int gas_main(int, char**);
static int opens, syms, closes, callN, okOpen, okSym, okCall, isGas, len; static bool open_;
static std::string path, symbol, given; static char* result; static std::string text; static uint64_t gasVal;
static void* op(char* a) {
  sym_assert(open_, "the operation is called while its library is loaded"); callN++; given = a;
  if (!okCall) return nullptr;
  if (isGas) { uint64_t* g = (uint64_t*)malloc(8); *g = gasVal; return g; }
  char* r = (char*)malloc(text.size() + 1); memcpy(r, text.data(), text.size()); r[text.size()] = 0; return r;
}
extern "C" {
void* sx_dlopen(const char* f, int) noexcept { opens++; path = f; if (!okOpen) return nullptr; open_ = true; return &opens; }
void* sx_dlsym(void* h, const char* n) noexcept { sym_assert(h == &opens && open_, "the symbol is looked up in the loaded library"); syms++; symbol = n; return okSym ? (void*)op : nullptr; }
int sx_dlclose(void* h) noexcept { sym_assert(h == &opens && open_, "the loaded library is closed once"); open_ = false; closes++; return 0; }
}
extern "C" void harness() {
  isGas = sym_choose("gas", 2); okOpen = sym_choose("open", 2); okSym = sym_choose("sym", 2); okCall = sym_choose("call", 2);
  int args = sym_choose("args", 6), L = sym_param("L", 1);
  char b[8]; sym_bytes("s", b, 3 * L); for (int k = 0; k < 3 * L; k++) sym_assume(b[k] != 0 && b[k] != '-');
  std::string a[3]; for (int k = 0; k < 3; k++) a[k] = std::string("xyz").substr(0, k) + std::string(b + k * L, L);
  if (isGas) { if (sym_choose("big", 2)) gasVal = 18446744073709551615ull; else { uint8_t g; sym_bytes("g", &g, 1); gasVal = g; } }
  else { len = sym_choose("len", 4); if (len == 3) { text = std::string(sym_param("BIG", 3000), 'r'); } else { char t[4]; sym_bytes("t", t, len); for (int k = 0; k < len; k++) sym_assume(t[k] != 0); text = std::string(t, len); } }
  const char* v[8]; int n = 0; v[n++] = "tool";
  if (args == 4) v[n++] = "-v"; if (args == 5) v[n++] = "--";
  int have = args == 0 ? 0 : args == 1 ? 2 : 3; for (int k = 0; k < have; k++) v[n++] = a[k].c_str();
  if (args == 2) v[n++] = "more"; v[n] = nullptr;
  bool good = args >= 3;
  char* argv[8]; for (int k = 0; k <= n; k++) argv[k] = v[k] ? strdup(v[k]) : nullptr;
  std::ostringstream out, err; std::streambuf* o = std::cout.rdbuf(out.rdbuf()); std::streambuf* e = std::cerr.rdbuf(err.rdbuf());
  int st = isGas ? gas_main(n, argv) : run_main(n, argv);
  std::cout.rdbuf(o); std::cerr.rdbuf(e);
  std::string got = out.str();
  sym_observe("status", st); sym_observe_bytes("out", got.data(), got.size());
  int want = !good ? 2 : !okOpen ? 3 : !okSym ? 4 : !okCall ? 5 : 0;
  sym_assert((st & 255) == want, "the exit status tells the outcome");
  if (good) sym_assert(opens == 1 && path == a[0], "the given library is loaded once");
  else sym_assert(!opens && !syms && !callN, "nothing is loaded for bad arguments");
  if (good && okOpen) sym_assert(syms == 1 && symbol == a[1] + (isGas ? "_gas" : "_run"), "the operation's entry point is looked up"); else sym_assert(!syms, "no lookup without a library");
  if (good && okOpen && okSym) sym_assert(callN == 1 && given == a[2], "the entry point is called once with the JSON text"); else sym_assert(!callN, "no call without an entry point");
  if (want) { sym_assert(got.empty(), "no result is printed on failure"); sym_reach(want == 2 ? "usage" : want == 3 ? "load" : want == 4 ? "symbol" : "null"); return; }
  if (isGas) {
    uint64_t w = 0; bool dig = got.size() > 1; for (size_t k = 0; k + 1 < got.size(); k++) { dig &= (unsigned char)(got[k] - '0') < 10; w = w * 10 + (got[k] - '0'); }
    sym_assert(dig && got[got.size() - 1] == '\n' && w == gasVal, "the gas and a newline are printed"); sym_reach("gas");
  } else {
    sym_assert(got.size() == text.size() + 1, "the result and a newline are printed"); bool same = true; for (size_t k = 0; k < text.size(); k++) same &= got[k] == text[k];
    sym_assert(same && got[text.size()] == '\n', "the result and a newline are printed"); sym_reach("run");
  }
}

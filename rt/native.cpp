// Native implementation of the harness API: runs a harness on one concrete input read from $SYM_REPLAY.
// Output (stdout is left to the code under test; results go to $SYM_OUT):
//   OBS name hex | REACH label | FAIL kind msg | END
// exit status: 0 path ended normally, 42 assertion failed, 44 replay file does not fit the run.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <unistd.h>
#include <time.h>
#include <sys/time.h>
#include <exception>
#include "sym.h"
namespace {
std::map<std::string, std::string> g_in;      // name -> bytes
std::map<std::string, long long> g_par;
std::map<std::string, std::string> g_uf;      // name|bytes -> bytes
std::map<std::string, int> g_cnt;
FILE* g_out;
void (*g_hook)(int);
bool g_ended;
int g_quiet; bool g_counting; size_t g_live;  // the harness API's own blocks are not counted
struct Quiet { Quiet() { g_quiet++; } ~Quiet() { g_quiet--; } };
std::string unhex(const char* s) { std::string r; unsigned v; while (s[0] && s[1] && s[0] != '\n') { sscanf(s, "%2x", &v); r += (char)v; s += 2; } return r; }
void load() {
  Quiet q;
  static bool done; if (done) return; done = true;
  const char* o = getenv("SYM_OUT"); g_out = o ? fopen(o, "w") : stderr; setvbuf(g_out, 0, _IONBF, 0);
  const char* p = getenv("SYM_REPLAY"); FILE* f = p ? fopen(p, "r") : 0; if (!f) { fprintf(g_out, "FAIL internal no replay file\n"); _exit(44); }
  char* line = 0; size_t cap = 0;
  while (getline(&line, &cap, f) > 0) {
    std::vector<std::string> t; char* sv; for (char* w = strtok_r(line, " \n", &sv); w; w = strtok_r(0, " \n", &sv)) t.push_back(w);
    if (t.size() < 2) continue;
    if (t[0] == "I") g_in[t[1]] = t.size() > 2 ? unhex(t[2].c_str()) : "";
    else if (t[0] == "P") g_par[t[1]] = atoll(t[2].c_str());
    else if (t[0] == "U") g_uf[t[1] + "|" + (t[2] == "-" ? "" : unhex(t[2].c_str()))] = unhex(t[3].c_str());
  }
  free(line); fclose(f);
}
std::string uniq(const char* n) { int k = g_cnt[n]++; return k ? std::string(n) + "#" + std::to_string(k) : std::string(n); }
void finish() { fprintf(g_out, "END\n"); fflush(stdout); _exit(0); }
void onexit(int st, void*) { if (g_ended) return; if (g_hook) { auto h = g_hook; g_hook = 0; h(st); fprintf(g_out, "END\n"); _exit(0); } fprintf(g_out, "FAIL exit exit(%d)\n", st); _exit(42); }
}
extern "C" {
void sym_bytes(const char* name, void* p, size_t n) { Quiet q; load(); std::string u = uniq(name); auto it = g_in.find(u); memset(p, 0, n); if (it != g_in.end()) memcpy(p, it->second.data(), it->second.size() < n ? it->second.size() : n); }
unsigned sym_choose_impl(const char* name, unsigned n) { Quiet q; load(); std::string u = uniq(name); auto it = g_in.find(u); unsigned v = 0; if (it != g_in.end()) for (size_t i = 0; i < it->second.size() && i < 4; i++) v |= (unsigned)(unsigned char)it->second[i] << (8 * i); if (v >= n) { fprintf(g_out, "FAIL internal choice out of range %s\n", u.c_str()); _exit(44); } return v; }
void sym_assume_impl(bool c) { load(); if (!c) { fprintf(g_out, "FAIL internal assumption does not hold\n"); _exit(44); } }
void sym_assert_impl(bool c, const char* msg) { load(); if (!c) { fprintf(g_out, "FAIL assert %s\n", msg); fflush(stdout); _exit(42); } }
void sym_reach(const char* l) { load(); fprintf(g_out, "REACH %s\n", l); }
void sym_observe_bytes(const char* name, const void* p, size_t n) { load(); fprintf(g_out, "OBS %s ", name); for (size_t i = 0; i < n; i++) fprintf(g_out, "%02x", ((const unsigned char*)p)[i]); fprintf(g_out, "\n"); }
void sym_observe(const char* name, uint64_t v) { sym_observe_bytes(name, &v, 8); }
int64_t sym_param(const char* name, int64_t d) { Quiet q; load(); auto it = g_par.find(name); return it == g_par.end() ? d : it->second; }
void sym_uf(const char* name, void* out, size_t ol, const void* in, size_t il) { Quiet q;
  load(); std::string key = std::string(name) + "_" + std::to_string(il) + "|" + std::string((const char*)in, il); auto it = g_uf.find(key);
  if (it != g_uf.end()) { memset(out, 0, ol); memcpy(out, it->second.data(), it->second.size() < ol ? it->second.size() : ol); return; }
  uint64_t h = 1469598103934665603ULL; for (unsigned char c : key) h = (h ^ c) * 1099511628211ULL; for (size_t i = 0; i < ol; i++) { h = h * 6364136223846793005ULL + 1442695040888963407ULL; ((unsigned char*)out)[i] = h >> 56; }
}
uint64_t sym_concretize(uint64_t v) { return v; }
void sym_end(void) { load(); g_ended = true; finish(); __builtin_unreachable(); }
void sym_fail_impl(const char* k, const char* m) { load(); fprintf(g_out, "FAIL %s %s\n", k, m); fflush(stdout); _exit(42); }
int sym_is_native(void) { return 1; }
size_t sym_alloc_size(const void*) { return (size_t)-1; }
size_t sym_heap(void) { return g_live; }
void sym_exit_hook(void (*f)(int)) { g_hook = f; }
void sym_trace(const char*, uint64_t) {}
}
// sources outside the program: the answers of the recorded path (their own meaning before the harness starts)
static bool g_started;
extern char** environ;
static uint64_t sx_env(const char* n) { uint64_t v; sym_bytes(n, &v, 8); return v; }
static char* realenv(const char* n) { size_t l = strlen(n); for (char** e = environ; e && *e; e++) if (!strncmp(*e, n, l) && (*e)[l] == '=') return *e + l + 1; return 0; }
extern "C" {
char* getenv(const char* n) noexcept { if (!g_started) return realenv(n); return sym_choose("env.getenv", 2) ? (char*)"1" : 0; }
char* secure_getenv(const char* n) noexcept { return getenv(n); }
int rand() noexcept { return (int)(sx_env("env.rand") & 0x7fffffff); } long random() noexcept { return (long)(sx_env("env.random") & 0x7fffffff); } void srand(unsigned) noexcept {} void srandom(unsigned) noexcept {} int rand_r(unsigned*) noexcept { return rand(); } long lrand48() noexcept { return random(); } void srand48(long) noexcept {}
time_t time(time_t* t) noexcept { if (!g_started) { if (t) *t = 0; return 0; } time_t v = (time_t)(sx_env("env.time") & 0xffffffffff); if (t) *t = v; return v; }
clock_t clock() noexcept { return g_started ? (clock_t)(sx_env("env.clock") & 0xffffffffff) : 0; }
int clock_gettime(clockid_t, struct timespec* t) noexcept { if (!g_started) { t->tv_sec = t->tv_nsec = 0; return 0; } t->tv_sec = (time_t)(sx_env("env.sec") & 0xffffffff); t->tv_nsec = (long)(sx_env("env.nsec") & 0x1fffffff); return 0; }
int gettimeofday(struct timeval* t, void*) noexcept { if (!g_started) { t->tv_sec = t->tv_usec = 0; return 0; } t->tv_sec = (time_t)(sx_env("env.sec") & 0xffffffff); t->tv_usec = (long)(sx_env("env.usec") & 0x7ffff); return 0; }
}
static void onterm() { fprintf(g_out, "FAIL terminate uncaught exception or terminate\n"); fflush(stdout); _exit(42); }
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*)) __attribute__((weak));
static void onmalloc(const volatile void*, size_t) { if (!g_quiet && g_counting) g_live++; }
static void onfree(const volatile void* p) { if (p && !g_quiet && g_counting) g_live--; }
extern "C" int sx_native_run(void) { load(); if (__sanitizer_install_malloc_and_free_hooks) { __sanitizer_install_malloc_and_free_hooks(onmalloc, onfree); g_counting = true; } on_exit(onexit, 0); std::set_terminate(onterm); g_started = true; harness(); g_ended = true; finish(); return 0; }
#ifndef SX_NO_MAIN
int main() { return sx_native_run(); }
#endif

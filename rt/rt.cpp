#define _GLIBCXX_DEFINING_STRING_INSTANTIATIONS 1
// Runtime model for symbolic execution: C library, C++ ABI and the parts of
// libstdc++ that live in its shared object.
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <cstddef>
#include <cstdint>
#include <cstdarg>
#include <new>
#include <exception>
#include <stdexcept>
#include <typeinfo>
#include <string>
#include <ios>
#include <map>
#include <functional>
#include <system_error>
#include <list>
#include <unordered_map>
#include <cstdio>
#include <chrono>
#include <random>
#include "sym.h"
extern "C" {
void* __sx_alloc(size_t n, int kind, int zero);
void __sx_free(void* p, int kind);
void __sx_throw(void* exc, void* ti, void* hdr) __attribute__((noreturn));
void* memcpy(void*, const void*, size_t); void* memmove(void*, const void*, size_t); void* memset(void*, int, size_t); int memcmp(const void*, const void*, size_t);
}
enum { K_MALLOC = 1, K_NEW = 2, K_NEWARR = 3 };
typedef unsigned char uc;
static int sx_errno;
static void (*sx_hook)(int);
struct SxAtexit { void (*f)(); }; 
extern "C" {
void* malloc(size_t n) { return __sx_alloc(n, K_MALLOC, 0); }
void free(void* p) { if (p) __sx_free(p, K_MALLOC); }
void* calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return 0; return __sx_alloc(n, K_MALLOC, 1); }
void* realloc(void* p, size_t n) {
  if (!p) return malloc(n);
  if (!n) { free(p); return 0; }
  size_t o = sym_alloc_size(p); void* q = malloc(n); if (!q) return 0;
  memcpy(q, p, o < n ? o : n); free(p); return q;
}
void* aligned_alloc(size_t, size_t n) { return malloc(n); }
int posix_memalign(void** r, size_t, size_t n) { *r = malloc(n); return *r ? 0 : 12; }
size_t strlen(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) ++n; return n; }
int strcmp(const char* a, const char* b) { for (;; ++a, ++b) { uc x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncmp(const char* a, const char* b, size_t n) { for (; n; --n, ++a, ++b) { uc x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
int strcasecmp(const char* a, const char* b);
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)); return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strncat(char* d, const char* s, size_t n) { char* e = d + strlen(d); size_t i = 0; for (; i < n && s[i]; ++i) e[i] = s[i]; e[i] = 0; return d; }
char* strchr(const char* s, int c) { for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* strrchr(const char* s, int c) { const char* r = 0; for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
void* memchr(const void* p, int c, size_t n) { const uc* s = (const uc*)p;
  if (n > 1 && n <= 64 && sym_alloc_size(p) >= n) { // one decision on whether it is there, none on where
    size_t at = n; for (size_t k = n; k-- > 0;) { size_t m = -(size_t)(s[k] == (uc)c); at ^= (at ^ k) & m; }
    return at == n ? 0 : (void*)(s + at);
  }
  for (; n; --n, ++s) if (*s == (uc)c) return (void*)s; return 0; }
void* memrchr(const void* p, int c, size_t n) { const uc* s = (const uc*)p; while (n--) if (s[n] == (uc)c) return (void*)(s + n); return 0; }
char* strstr(const char* h, const char* n) { size_t l = strlen(n); for (;; ++h) { if (!strncmp(h, n, l)) return (char*)h; if (!*h) return 0; } }
size_t strspn(const char* s, const char* a) { size_t n = 0; while (s[n] && strchr(a, s[n])) ++n; return n; }
size_t strcspn(const char* s, const char* a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) ++n; return n; }
char* strpbrk(const char* s, const char* a) { s += strcspn(s, a); return *s ? (char*)s : 0; }
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* r = (char*)malloc(n); if (r) memcpy(r, s, n); return r; }
char* strndup(const char* s, size_t m) { size_t n = strnlen(s, m); char* r = (char*)malloc(n + 1); if (r) { memcpy(r, s, n); r[n] = 0; } return r; }
static char* sx_tok;
char* strtok_r(char* s, const char* d, char** sv) { if (!s) s = *sv; s += strspn(s, d); if (!*s) { *sv = s; return 0; } char* e = s + strcspn(s, d); if (*e) *e++ = 0; *sv = e; return s; }
char* __strtok_r(char* s, const char* d, char** sv) { return strtok_r(s, d, sv); }
char* strtok(char* s, const char* d) { return strtok_r(s, d, &sx_tok); }
int strncasecmp(const char* a, const char* b, size_t n);
void bzero(void* p, size_t n) { memset(p, 0, n); } void explicit_bzero(void* p, size_t n) { memset(p, 0, n); } void bcopy(const void* a, void* b, size_t n) { memmove(b, a, n); } int bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
void* mempcpy(void* d, const void* s, size_t n) { memcpy(d, s, n); return (char*)d + n; } char* stpcpy(char* d, const char* s) { while ((*d = *s)) ++d, ++s; return d; }
char* stpncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; char* r = d + i; for (; i < n; ++i) d[i] = 0; return r; }
void* rawmemchr(const void* p, int c) { const uc* s = (const uc*)p; while (*s != (uc)c) ++s; return (void*)s; } char* strchrnul(const char* s, int c) { while (*s && *s != (char)c) ++s; return (char*)s; }
void* memmem(const void* h, size_t n, const void* q, size_t m) { const uc* s = (const uc*)h; for (size_t i = 0; m <= n && i <= n - m; ++i) if (!memcmp(s + i, q, m)) return (void*)(s + i); return 0; }
char* strcasestr(const char* h, const char* n) { size_t l = strlen(n); for (;; ++h) { if (!strncasecmp(h, n, l)) return (char*)h; if (!*h) return 0; } }
char* index(const char* s, int c) { return strchr(s, c); } char* rindex(const char* s, int c) { return strrchr(s, c); } char* strsep(char** p, const char* d) { char* s = *p; if (!s) return 0; char* e = s + strcspn(s, d); if (*e) { *e = 0; *p = e + 1; } else *p = 0; return s; }
int strcoll(const char* a, const char* b) { return strcmp(a, b); } size_t strlcpy(char* d, const char* s, size_t n) { size_t l = strlen(s); if (n) { size_t k = l < n ? l : n - 1; memcpy(d, s, k); d[k] = 0; } return l; }
char* strerror(int) { return (char*)"error"; }
int* __errno_location() { return &sx_errno; }
// character classification without branches
#define B(e) ((int)(e))
int isdigit(int c) { return B((unsigned)(c - '0') < 10u); }
int islower(int c) { return B((unsigned)(c - 'a') < 26u); }
int isupper(int c) { return B((unsigned)(c - 'A') < 26u); }
int isalpha(int c) { return B(((unsigned)c | 32u) - 'a' < 26u); }
int isalnum(int c) { return B(isalpha(c) | isdigit(c)); }
int isxdigit(int c) { return B(isdigit(c) | (((unsigned)c | 32u) - 'a' < 6u)); }
int isspace(int c) { return B((c == ' ') | ((unsigned)(c - 9) < 5u)); }
int isblank(int c) { return B((c == ' ') | (c == 9)); }
int iscntrl(int c) { return B(((unsigned)c < 32u) | (c == 127)); }
int isprint(int c) { return B((unsigned)(c - 32) < 95u); }
int isgraph(int c) { return B((unsigned)(c - 33) < 94u); }
int ispunct(int c) { return B(isgraph(c) & !isalnum(c)); }
int isascii(int c) { return B((unsigned)c < 128u); }
int tolower(int c) { return c + (isupper(c) << 5); }
int toupper(int c) { return c - (islower(c) << 5); }
int strcasecmp(const char* a, const char* b) { for (;; ++a, ++b) { int x = tolower((uc)*a), y = tolower((uc)*b); if (x != y) return x - y; if (!x) return 0; } }
int strncasecmp(const char* a, const char* b, size_t n) { for (; n; --n, ++a, ++b) { int x = tolower((uc)*a), y = tolower((uc)*b); if (x != y) return x - y; if (!x) return 0; } return 0; }
int abs(int v) { return v < 0 ? -v : v; }
long labs(long v) { return v < 0 ? -v : v; }
long long llabs(long long v) { return v < 0 ? -v : v; }
double floor(double x) { if (!(x > -9e15 && x < 9e15)) return x; double t = (double)(long)x; return t > x ? t - 1 : t; } double ceil(double x) { return -floor(-x); } double trunc(double x) { return x < 0 ? ceil(x) : floor(x); } double round(double x) { return x < 0 ? -floor(-x + 0.5) : floor(x + 0.5); } double fabs(double x) { return x < 0 ? -x : x; }
long lround(double x) { return (long)round(x); } float floorf(float x) { return (float)floor(x); } float ceilf(float x) { return (float)ceil(x); }
double sqrt(double x) { if (!(x > 0)) return 0; double r = x > 1 ? x : 1; for (int k = 0; k < 1100; ++k) { double n = (r + x / r) / 2; if (n >= r) break; r = n; } return r; }
double pow(double x, double y) { if (y != floor(y) || y < -1100 || y > 1100) sym_fail_impl("unsupported", "pow"); double r = 1; long n = (long)fabs(y); while (n-- > 0) r *= x; return y < 0 ? 1 / r : r; }
div_t div(int a, int b) { div_t r; r.quot = a / b; r.rem = a % b; return r; } ldiv_t ldiv(long a, long b) { ldiv_t r; r.quot = a / b; r.rem = a % b; return r; }
int ffs(int v) { return v ? __builtin_ctz(v) + 1 : 0; } int ffsl(long v) { return v ? __builtin_ctzl(v) + 1 : 0; } int ffsll(long long v) { return v ? __builtin_ctzll(v) + 1 : 0; }
void qsort(void* b, size_t n, size_t w, int (*f)(const void*, const void*)) { char* a = (char*)b; for (size_t i = 1; i < n; ++i) for (size_t j = i; j > 0 && f(a + (j - 1) * w, a + j * w) > 0; --j) for (size_t k = 0; k < w; ++k) { char t = a[(j - 1) * w + k]; a[(j - 1) * w + k] = a[j * w + k]; a[j * w + k] = t; } }
void* bsearch(const void* k, const void* b, size_t n, size_t w, int (*f)(const void*, const void*)) { size_t l = 0, h = n; while (l < h) { size_t m = (l + h) / 2; const char* p = (const char*)b + m * w; int r = f(k, p); if (!r) return (void*)p; if (r < 0) h = m; else l = m + 1; } return 0; }
static unsigned long sx_strtoull(const char* s, char** end, int base, int* negp, int* ovf) {
  const char* p = s; while (isspace((uc)*p)) ++p;
  int neg = 0; if (*p == '-') { neg = 1; ++p; } else if (*p == '+') ++p;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((uc)p[2])) { p += 2; base = 16; }
  else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long v = 0; int any = 0; *ovf = 0;
  for (;; ++p) {
    int c = (uc)*p;
    if (base <= 10) { if (!((unsigned)(c - '0') < (unsigned)base)) break; }
    else if (base == 16) { if (!isxdigit(c)) break; }
    else if (!isalnum(c)) break;
    unsigned d = base <= 10 ? c - '0' : (c & 15) + 9 * (c >> 6);
    if (base > 16) { d = isdigit(c) ? c - '0' : (c | 32) - 'a' + 10; if (d >= (unsigned)base) break; }
    any = 1;
    unsigned long w;
    if (v > (~0UL - d) / base) *ovf = 1;
    w = v * base + d; v = w;
  }
  if (end) *end = (char*)(any ? p : s);
  *negp = neg; return v;
}
unsigned long strtoul(const char* s, char** e, int b) { int n, o; unsigned long v = sx_strtoull(s, e, b, &n, &o); if (o) { sx_errno = 34; return ~0UL; } return n ? 0 - v : v; }
long strtol(const char* s, char** e, int b) {
  int n, o; unsigned long v = sx_strtoull(s, e, b, &n, &o);
  if (n) { if (o || v > 1UL << 63) { sx_errno = 34; return (long)(1UL << 63); } return (long)(0 - v); }
  if (o || v > ~0UL >> 1) { sx_errno = 34; return (long)(~0UL >> 1); } return (long)v;
}
unsigned long long strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
long long strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
long long atoll(const char* s) { return strtol(s, 0, 10); } uintmax_t strtoumax(const char* s, char** e, int b) { return strtoul(s, e, b); } intmax_t strtoimax(const char* s, char** e, int b) { return strtol(s, e, b); }

int atoi(const char* s) { return (int)strtol(s, 0, 10); }
long atol(const char* s) { return strtol(s, 0, 10); }
static void sx_out(char* b, size_t n, size_t* pos, char c) { if (*pos + 1 < n) b[*pos] = c; ++*pos; }
int vsnprintf(char* b, size_t n, const char* f, va_list ap) {
  size_t pos = 0;
  for (; *f; ++f) {
    if (*f != '%') { sx_out(b, n, &pos, *f); continue; }
    ++f; int left = 0, zero = 0, plus = 0, alt = 0, sp = 0;
    for (;; ++f) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == '#') alt = 1; else if (*f == ' ') sp = 1; else break; }
    int w = 0, pr = -1;
    if (*f == '*') { w = va_arg(ap, int); if (w < 0) { left = 1; w = -w; } ++f; } else while (isdigit(*f)) w = w * 10 + (*f++ - '0');
    if (*f == '.') { ++f; pr = 0; if (*f == '*') { pr = va_arg(ap, int); ++f; } else while (isdigit(*f)) pr = pr * 10 + (*f++ - '0'); }
    int lng = 0; while (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') { lng = 1; ++f; } int h = 0; while (*f == 'h') { ++h; ++f; }
    char t[80]; int k = 80; const char* s = t; long len = 0; char sign = 0;
    switch (*f) {
      case '%': sx_out(b, n, &pos, '%'); continue;
      case 'c': t[0] = (char)va_arg(ap, int); s = t; len = 1; zero = 0; break;
      case 's': s = va_arg(ap, const char*); if (!s) s = "(null)"; len = 0; while ((pr < 0 || len < pr) && s[len]) ++len; zero = 0; break;
      case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
        unsigned long v;
        if (*f == 'p') { v = (unsigned long)va_arg(ap, void*); alt = 1; }
        else if (*f == 'd' || *f == 'i') { long q = lng ? va_arg(ap, long) : (long)va_arg(ap, int); if (h == 1) q = (short)q; if (h == 2) q = (signed char)q; if (q < 0) { sign = '-'; v = 0 - (unsigned long)q; } else { v = q; sign = plus ? '+' : sp ? ' ' : 0; } }
        else { v = lng ? va_arg(ap, unsigned long) : (unsigned long)va_arg(ap, unsigned); if (h == 1) v = (unsigned short)v; if (h == 2) v = (uc)v; }
        unsigned base = (*f == 'x' || *f == 'X' || *f == 'p') ? 16 : *f == 'o' ? 8 : 10; const char* dg = *f == 'X' ? "0123456789ABCDEF" : "0123456789abcdef";
        unsigned long o = v;
        if (base == 16) { 
          // padded hexadecimal: digits below the pad width need no decision
          int mn = pr >= 0 ? pr : (zero && !left) ? w : 1; if (alt) mn = 1; if (mn < 1) mn = 1; if (mn > 60) mn = 60;
          int c = 0; do { t[--k] = dg[v & 15]; v >>= 4; ++c; if (c < mn) continue; if (!v) break; } while (c < 70);
        } else do { t[--k] = dg[v % base]; v /= base; } while (v);
        if (pr == 0 && o == 0) k = 80;
        while (80 - k < pr) t[--k] = '0';
        if (alt && base == 16 && (o || *f == 'p')) { if (zero && pr < 0 && !left) while (80 - k + 2 < w) t[--k] = '0'; t[--k] = *f == 'X' ? 'X' : 'x'; t[--k] = '0'; }
        if (zero && pr < 0 && !left) while (80 - k + (sign ? 1 : 0) < w && k > 2) t[--k] = '0';
        if (sign) t[--k] = sign;
        s = t + k; len = 80 - k; zero = 0; break;
      }
      default: sym_fail_impl("unsupported", "printf conversion");
    }
    if (!left) for (long i = len; i < w; ++i) sx_out(b, n, &pos, ' ');
    for (long i = 0; i < len; ++i) sx_out(b, n, &pos, s[i]);
    if (left) for (long i = len; i < w; ++i) sx_out(b, n, &pos, ' ');
  }
  if (n) b[pos < n ? pos : n - 1] = 0;
  return (int)pos;
}
int vsprintf(char* b, const char* f, va_list ap) { return vsnprintf(b, (size_t)1 << 40, f, ap); }
int snprintf(char* b, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int sprintf(char* b, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, (size_t)1 << 40, f, ap); va_end(ap); return r; }
int printf(const char* f, ...) { char t[2000]; va_list ap; va_start(ap, f); int r = vsnprintf(t, sizeof t, f, ap); va_end(ap); return r; }
int fprintf(FILE*, const char* f, ...) { char t[2000]; va_list ap; va_start(ap, f); int r = vsnprintf(t, sizeof t, f, ap); va_end(ap); return r; }
int vprintf(const char* f, va_list ap) { char t[2000]; return vsnprintf(t, sizeof t, f, ap); } int vfprintf(FILE*, const char* f, va_list ap) { char t[2000]; return vsnprintf(t, sizeof t, f, ap); }
int asprintf(char** r, const char* f, ...) { char t[2000]; va_list ap; va_start(ap, f); int n = vsnprintf(t, sizeof t, f, ap); va_end(ap); *r = strdup(t); return n; }
int vasprintf(char** r, const char* f, va_list ap) { char t[2000]; int n = vsnprintf(t, sizeof t, f, ap); *r = strdup(t); return n; }
int __printf_chk(int, const char* f, ...) { char t[2000]; va_list ap; va_start(ap, f); int r = vsnprintf(t, sizeof t, f, ap); va_end(ap); return r; }
size_t fwrite(const void*, size_t w, size_t n, FILE*) { return w ? n : 0; } int fputc(int c, FILE*) { return c; } int putc(int c, FILE*) { return c; } void perror(const char*) {} int fclose(FILE*) { return 0; } int setvbuf(FILE*, char*, int, size_t) { return 0; } int ferror(FILE*) { return 0; } int feof(FILE*) { return 0; }
int puts(const char* s) { return (int)strlen(s) + 1; }
int putchar(int c) { return c; }
int fputs(const char* s, FILE*) { return (int)strlen(s); }
int fflush(FILE*) { return 0; }
static int sx_vsscanf(const char* s, const char* f, va_list ap) {
  const char* s0 = s; int n = 0;
  for (; *f; ++f) {
    if (isspace(*f)) { while (isspace((uc)*s)) ++s; continue; }
    if (*f != '%') { if (*s != *f) return n ? n : (*s ? n : -1); ++s; continue; }
    ++f; int skip = 0; if (*f == '*') { skip = 1; ++f; }
    int w = 0; while (isdigit(*f)) w = w * 10 + (*f++ - '0');
    if (!w) w = 1 << 30;
    int lng = 0, h = 0; while (*f == 'l' || *f == 'z') { lng = 1; ++f; } while (*f == 'h') { ++h; ++f; }
    if (*f != 'c' && *f != 'n') while (isspace((uc)*s)) ++s;
    if (*f == 'n') { *va_arg(ap, int*) = (int)(s - s0); continue; }
    if (!*s) return n ? n : -1;
    if (*f == 'c') { if (w == 1 << 30) w = 1; char* d = skip ? 0 : va_arg(ap, char*); for (int i = 0; i < w; ++i) { if (!*s) return n; if (d) d[i] = *s; ++s; } if (!skip) ++n; continue; }
    if (*f == 's') { char* d = skip ? 0 : va_arg(ap, char*); int i = 0; while (i < w && *s && !isspace((uc)*s)) { if (d) d[i] = *s; ++i; ++s; } if (d) d[i] = 0; if (!skip) ++n; continue; }
    int base = (*f == 'x' || *f == 'X') ? 16 : (*f == 'd' || *f == 'u') ? 10 : *f == 'o' ? 8 : *f == 'i' ? 0 : -1;
    if (base < 0) sym_fail_impl("unsupported", "scanf conversion");
    const char* p = s; int left = w, neg = 0; if (left && (*p == '-' || *p == '+')) { neg = *p == '-'; ++p; --left; }
    if (base == 0) base = 10;
    if (base == 16 && left > 1 && p[0] == '0' && ((p[1] | 32) == 'x')) { p += 2; left -= 2; }
    unsigned long v = 0; int any = 0;
    while (left > 0) { int c = (uc)*p; if (base == 16 ? !isxdigit(c) : base == 10 ? !isdigit(c) : !((unsigned)(c - '0') < 8u)) break; v = v * base + (unsigned)((c & 15) + 9 * (c >> 6)); any = 1; ++p; --left; }
    if (!any) return n;
    s = p; if (neg) v = 0 - v;
    if (!skip) { if (lng) *va_arg(ap, unsigned long*) = v; else if (h == 1) *va_arg(ap, unsigned short*) = (unsigned short)v; else if (h == 2) *va_arg(ap, uc*) = (uc)v; else *va_arg(ap, unsigned*) = (unsigned)v; ++n; }
  }
  return n;
}
int sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = sx_vsscanf(s, f, ap); va_end(ap); return r; }
int __isoc99_sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = sx_vsscanf(s, f, ap); va_end(ap); return r; }
void abort() { sym_fail_impl("abort", "abort() called"); }
void sym_exit_hook(void (*f)(int)) { sx_hook = f; }
void exit(int s) { if (sx_hook) { sx_hook(s); sym_end(); } sym_fail_impl("exit", "unexpected exit()"); }
void _exit(int s) { exit(s); }
void quick_exit(int s) { exit(s); }
int atexit(void (*)()) { return 0; }
// sources outside the program: any answer
static uint64_t sx_env(const char* n) { uint64_t v; sym_bytes(n, &v, 8); return v; }
char* getenv(const char*) { return sym_choose("env.getenv", 2) ? (char*)"1" : 0; } char* secure_getenv(const char* n) { return getenv(n); }
int rand() { return (int)(sx_env("env.rand") & 0x7fffffff); } long random() { return (long)(sx_env("env.random") & 0x7fffffff); } void srand(unsigned) {} void srandom(unsigned) {} int rand_r(unsigned*) { return rand(); } long lrand48() { return random(); } void srand48(long) {}
time_t time(time_t* t) { time_t v = (time_t)(sx_env("env.time") & 0xffffffffff); if (t) *t = v; return v; } clock_t clock() { return (clock_t)(sx_env("env.clock") & 0xffffffffff); }
int getpid() { return (int)(sx_env("env.getpid") & 0x3fffff); }
int clock_gettime(int, struct timespec* t) { t->tv_sec = (time_t)(sx_env("env.sec") & 0xffffffff); t->tv_nsec = (long)(sx_env("env.nsec") & 0x1fffffff); return 0; }
int gettimeofday(struct timeval* t, void*) { long* p = (long*)t; p[0] = (long)(sx_env("env.sec") & 0xffffffff); p[1] = (long)(sx_env("env.usec") & 0x7ffff); return 0; }
void __assert_fail(const char*, const char*, unsigned, const char*) { sym_fail_impl("assert-fail", "assert() failed"); }
int __cxa_guard_acquire(uint64_t* g) { return !*(char*)g; }
void __cxa_guard_release(uint64_t* g) { *(char*)g = 1; }
void __cxa_guard_abort(uint64_t*) {}
void __cxa_pure_virtual() { sym_fail_impl("pure-virtual", "pure virtual function called"); }
void __cxa_deleted_virtual() { sym_fail_impl("pure-virtual", "deleted virtual function called"); }
int pthread_once(int* c, void (*f)()) { if (!*c) { *c = 2; f(); } return 0; } int pthread_mutex_trylock(void*) { return 0; } int pthread_mutex_init(void*, const void*) { return 0; } int pthread_mutex_destroy(void*) { return 0; } unsigned long pthread_self() { return 1; } int pthread_key_create(unsigned*, void (*)(void*)) { return 0; } int sched_yield() { return 0; }
bool __sx_upcast(void* from, void* to, long* adj);
void* __dynamic_cast(const void* p, const void*, const void* to, ptrdiff_t) { void** vt = *(void***)p; char* most = (char*)p + ((long*)vt)[-2]; long adj = 0; return __sx_upcast(vt[-1], (void*)to, &adj) ? most + adj : 0; }
int pthread_mutex_lock(void*) { return 0; } int pthread_mutex_unlock(void*) { return 0; }
char __libc_single_threaded = 1;
int __gxx_personality_v0() { return 0; }
// ---- exceptions: 64-byte header before the object
struct SxHdr { void* ti; void (*dtor)(void*); void* adj; long refs; long handlers; long pad[3]; };
static void* sx_caught[64]; static int sx_ncaught; static int sx_uncaught;
void* __cxa_allocate_exception(size_t n) { char* p = (char*)__sx_alloc(n + 64, K_MALLOC, 1); return p + 64; }
void __cxa_free_exception(void* e) { __sx_free((char*)e - 64, K_MALLOC); }
void __cxa_throw(void* e, void* ti, void (*d)(void*)) { SxHdr* h = (SxHdr*)((char*)e - 64); h->ti = ti; h->dtor = d; ++sx_uncaught; __sx_throw(e, ti, h); }
void* __cxa_begin_catch(void* e) { SxHdr* h = (SxHdr*)((char*)e - 64); if (h->handlers < 0) h->handlers = -h->handlers; h->handlers++; if (!(sx_ncaught && sx_caught[sx_ncaught - 1] == e)) sx_caught[sx_ncaught++] = e; --sx_uncaught; return h->adj; }
void* __cxa_get_exception_ptr(void* e) { return ((SxHdr*)((char*)e - 64))->adj; }
void __cxa_end_catch() {
  if (!sx_ncaught) return; void* e = sx_caught[sx_ncaught - 1]; SxHdr* h = (SxHdr*)((char*)e - 64);
  if (h->handlers < 0) { if (++h->handlers == 0) --sx_ncaught; return; } // being rethrown
  if (--h->handlers == 0) { --sx_ncaught; if (!h->refs) { if (h->dtor) h->dtor(e); __sx_free(h, K_MALLOC); } }
}
void __cxa_rethrow() { if (!sx_ncaught) std::terminate(); void* e = sx_caught[sx_ncaught - 1]; SxHdr* h = (SxHdr*)((char*)e - 64); h->handlers = -h->handlers; ++sx_uncaught; __sx_throw(e, h->ti, h); }
void __cxa_call_unexpected(void*) { std::terminate(); }
void __cxa_bad_cast() { throw std::bad_cast(); }
void __cxa_bad_typeid() { throw std::bad_typeid(); }
void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
void _Unwind_Resume(void*) { sym_fail_impl("abort", "_Unwind_Resume"); }
}
void* operator new(size_t n) { void* p = __sx_alloc(n, K_NEW, 0); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = __sx_alloc(n, K_NEWARR, 0); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return __sx_alloc(n, K_NEW, 0); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return __sx_alloc(n, K_NEWARR, 0); }
void operator delete(void* p) noexcept { if (p) __sx_free(p, K_NEW); }
void operator delete[](void* p) noexcept { if (p) __sx_free(p, K_NEWARR); }
void operator delete(void* p, size_t) noexcept { if (p) __sx_free(p, K_NEW); }
void operator delete[](void* p, size_t) noexcept { if (p) __sx_free(p, K_NEWARR); }
void operator delete(void* p, const std::nothrow_t&) noexcept { if (p) __sx_free(p, K_NEW); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { if (p) __sx_free(p, K_NEWARR); }
namespace std {
const nothrow_t nothrow{};
exception::~exception() noexcept {} const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {} const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {} const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {} const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {} const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {} const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; } bool type_info::__is_function_p() const { return false; }
bool type_info::__do_catch(const type_info*, void**, unsigned) const { return false; } bool type_info::__do_upcast(const __cxxabiv1::__class_type_info*, void**) const { return false; }
void terminate() noexcept { sym_fail_impl("terminate", "std::terminate called"); }
void unexpected() { terminate(); }
bool uncaught_exception() noexcept { return sx_uncaught > 0; }
int uncaught_exceptions() noexcept { return sx_uncaught; }
// __cow_string: one pointer to a heap copy
static char* sx_dup(const char* s, size_t n) { char* p = (char*)malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
__cow_string::__cow_string() { _M_p = sx_dup("", 0); }
__cow_string::__cow_string(const std::string& s) { _M_p = sx_dup(s.data(), s.size()); }
__cow_string::__cow_string(const char* s, size_t n) { _M_p = sx_dup(s, n); }
__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = sx_dup(o._M_p, strlen(o._M_p)); }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { char* n = sx_dup(o._M_p, strlen(o._M_p)); free((void*)_M_p); _M_p = n; return *this; }
__cow_string::~__cow_string() { free((void*)_M_p); }
__cow_string::__cow_string(__cow_string&& o) noexcept { _M_p = sx_dup(o._M_p, strlen(o._M_p)); }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { return *this = (const __cow_string&)o; }
logic_error::logic_error(const string& s) : _M_msg(s) {} logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {} logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::logic_error(logic_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {} logic_error& logic_error::operator=(logic_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {} const char* logic_error::what() const noexcept { return *(const char* const*)&_M_msg; }
runtime_error::runtime_error(const string& s) : _M_msg(s) {} runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {} runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::runtime_error(runtime_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {} runtime_error& runtime_error::operator=(runtime_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {} const char* runtime_error::what() const noexcept { return *(const char* const*)&_M_msg; }
#define SXE(N, P) N::N(const string& s) : P(s) {} N::N(const char* s) : P(s) {} N::~N() noexcept {}
SXE(domain_error, logic_error) SXE(invalid_argument, logic_error) SXE(length_error, logic_error) SXE(out_of_range, logic_error)
SXE(range_error, runtime_error) SXE(overflow_error, runtime_error) SXE(underflow_error, runtime_error)
void __throw_bad_exception() { throw bad_exception(); } void __throw_bad_alloc() { throw bad_alloc(); } void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); } void __throw_bad_typeid() { throw bad_typeid(); } void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_logic_error(const char* s) { throw logic_error(s); } void __throw_domain_error(const char* s) { throw domain_error(s); } void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); } void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); } void __throw_range_error(const char* s) { throw range_error(s); } void __throw_overflow_error(const char* s) { throw overflow_error(s); } void __throw_underflow_error(const char* s) { throw underflow_error(s); }
void __throw_ios_failure(const char* s) { throw runtime_error(s); }
void __glibcxx_assert_fail(const char*, int, const char*, const char*) noexcept { sym_fail_impl("assert-fail", "libstdc++ assertion"); }
// red-black tree (standard CLRS algorithms)
typedef _Rb_tree_node_base* RB;
static RB rb_inc(RB x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { RB y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
static RB rb_dec(RB x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { RB y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { RB y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
RB _Rb_tree_increment(RB x) throw() { return rb_inc(x); } const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return rb_inc((RB)x); }
RB _Rb_tree_decrement(RB x) throw() { return rb_dec(x); } const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return rb_dec((RB)x); }
static void rb_rotl(RB x, RB& root) { RB y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
static void rb_rotr(RB x, RB& root) { RB y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
void _Rb_tree_insert_and_rebalance(const bool left, RB x, RB p, _Rb_tree_node_base& h) throw() {
  RB& root = h._M_parent; x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    RB xpp = x->_M_parent->_M_parent;
    if (x->_M_parent == xpp->_M_left) { RB y = xpp->_M_right; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; } else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rb_rotl(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rb_rotr(xpp, root); } }
    else { RB y = xpp->_M_left; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; } else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rb_rotr(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rb_rotl(xpp, root); } }
  }
  root->_M_color = _S_black;
}
RB _Rb_tree_rebalance_for_erase(RB const z, _Rb_tree_node_base& h) throw() {
  // unlink without rebalancing colours: keeps the ordering invariant, which is all callers observe
  RB& root = h._M_parent; RB y = z; RB x; RB xp;
  if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent; _Rb_tree_color c = y->_M_color; y->_M_color = z->_M_color; z->_M_color = c;
  } else {
    xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (h._M_left == z) { if (!z->_M_right) h._M_left = z->_M_parent; else { RB m = x; while (m->_M_left) m = m->_M_left; h._M_left = m; } }
    if (h._M_right == z) { if (!z->_M_left) h._M_right = z->_M_parent; else { RB m = x; while (m->_M_right) m = m->_M_right; h._M_right = m; } }
  }
  if (root) root->_M_color = _S_black;
  return z;
}
namespace __exception_ptr {
static void sx_ref(void* e) { if (e) ((SxHdr*)((char*)e - 64))->refs++; }
static void sx_unref(void* e) { if (!e) return; SxHdr* h = (SxHdr*)((char*)e - 64); if (--h->refs == 0 && h->handlers == 0) { if (h->dtor) h->dtor(e); __sx_free(h, K_MALLOC); } }
exception_ptr::exception_ptr(void* e) noexcept : _M_exception_object(e) { _M_addref(); }
void exception_ptr::_M_addref() noexcept { sx_ref(_M_exception_object); } void exception_ptr::_M_release() noexcept { sx_unref(_M_exception_object); _M_exception_object = 0; }
void* exception_ptr::_M_get() const noexcept { return _M_exception_object; }
const type_info* exception_ptr::__cxa_exception_type() const noexcept { return (const type_info*)((SxHdr*)((char*)_M_exception_object - 64))->ti; }
}
exception_ptr current_exception() noexcept { return sx_ncaught ? __exception_ptr::exception_ptr(sx_caught[sx_ncaught - 1]) : exception_ptr(); }
void rethrow_exception(exception_ptr p) { void* e = *(void**)&p; SxHdr* h = (SxHdr*)((char*)e - 64); ++sx_uncaught; __sx_throw(e, h->ti, h); }
nested_exception::~nested_exception() noexcept {}
terminate_handler set_terminate(terminate_handler) noexcept { return 0; } terminate_handler get_terminate() noexcept { return 0; } new_handler set_new_handler(new_handler) throw() { return 0; } new_handler get_new_handler() noexcept { return 0; }
__thread void* __once_callable; __thread void (*__once_call)(); extern "C" void __once_proxy() { __once_call(); }
void __throw_system_error(int) { throw runtime_error("system error"); }
void __throw_regex_error(int) { throw runtime_error("regex"); }
template<> basic_istream<char>& operator>>(basic_istream<char>& i, basic_string<char>& s) { istream::sentry ok(i); if (!ok) return i; s.erase(); streamsize w = i.width(), n = 0; if (w <= 0) w = 1L << 40; int c = 0; while (n < w) { c = i.rdbuf()->sgetc(); if (c == -1) { i.setstate(ios_base::eofbit); break; } if (c == ' ' || (c >= 9 && c <= 13)) break; s.push_back((char)c); i.rdbuf()->sbumpc(); ++n; } i.width(0); if (!n) i.setstate(ios_base::failbit); return i; }
template<> basic_istream<char>& getline(basic_istream<char>& i, basic_string<char>& s, char d) { istream::sentry ok(i, true); if (!ok) return i; s.erase(); bool any = false; for (;;) { int c = i.rdbuf()->sbumpc(); if (c == -1) { i.setstate(ios_base::eofbit); break; } any = true; if (c == (unsigned char)d) break; s.push_back((char)c); } if (!any) i.setstate(ios_base::failbit); return i; }
namespace __detail {
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept { bool ex = x._M_next != &x, ey = y._M_next != &y; _List_node_base xn = x, yn = y; if (ey) { x = yn; x._M_next->_M_prev = x._M_prev->_M_next = &x; } else x._M_next = x._M_prev = &x; if (ex) { y = xn; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else y._M_next = y._M_prev = &y; }
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; _List_node_base* t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { static const size_t p[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3739, 7517}; size_t i = 0; while (i < 11 && p[i] < n) ++i; _M_next_resize = p[i]; return p[i]; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const { if (ne + ni > _M_next_resize || ne + ni > nb) { size_t w = ne + ni; if (w < nb * 2) w = nb * 2; return {true, _M_next_bkt(w)}; } return {false, 0}; }
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { const uc* b = (const uc*)p; size_t h = seed ^ n; for (size_t i = 0; i < n; ++i) h = h * 131 + b[i]; return h; }
size_t _Fnv_hash_bytes(const void* p, size_t n, size_t seed) { return _Hash_bytes(p, n, seed); }
struct SxNull : basic_streambuf<char, char_traits<char>> { streamsize xsputn(const char*, streamsize n) { return n; } int_type overflow(int_type) { return 0; } };
static SxNull sx_null;
ostream cout(&sx_null), cerr(&sx_null), clog(&sx_null); istream cin(&sx_null);
namespace chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { return time_point(duration((long)(sx_env("env.now") & 0xfffffffffffffff))); } steady_clock::time_point steady_clock::now() noexcept { return time_point(duration((long)(sx_env("env.now") & 0xfffffffffffffff))); } } }
void random_device::_M_init(const std::string&) {} void random_device::_M_fini() {} random_device::result_type random_device::_M_getval() { return (unsigned)sx_env("env.random"); }
template class basic_string<char>; template basic_istream<char>& getline(basic_istream<char>&, basic_string<char>&);
template string operator+(const string&, const string&); template string operator+(const char*, const string&); template string operator+(const string&, const char*); template string operator+(const string&, char);
template basic_ostream<char>& operator<<(basic_ostream<char>&, const basic_string<char>&);
template basic_ostream<char>& __ostream_insert(basic_ostream<char>&, const char*, streamsize);
template bool operator==(const string&, const char*);
}
extern "C" { FILE *stdin, *stdout, *stderr; }

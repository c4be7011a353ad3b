// The scrypt operation around the hash: validation, price, decoded block, encoded digest.
#include "sha_stub.h"
#include "ops.h"
static int calls; static unsigned char block[80], digest[32];
void sx_scrypt(const char* input, char* output) { calls++; memcpy(block, input, 80); sym_bytes("digest", digest, 32); memcpy(output, digest, 32); }
void scrypt_1024_1_1_256(const char* input, char* output);
static inline int digit(unsigned char c) { int v = -1; int d = c - '0', a = (c | 32) - 'a'; v = (d >= 0) & (d <= 9) ? d : ((a >= 0) & (a < 6) ? a + 10 : -1); return v; }
extern "C" void harness() {
  int lo = sym_param("LO", 0), hi = sym_param("HI", 0), m = sym_param("M", -1);
  int L = lo + (hi > lo ? sym_choose("len", hi - lo + 1) : 0);
  std::string s(L, '0');
  for (int k = 0; k < L; k++) s[k] = "0123456789abcdefABCDEF"[(k * 7 + 3) % 22];
  if (m < 0) { std::string b(L, 0); sym_bytes("s", &b[0], L); s = b; }             // every byte symbolic
  else if (L) {                                                                      // m symbolic bytes next to each other
    int n = m < L ? m : L, where[] = {0, L - n, 79 < L - n ? 79 : 0, L / 2 < L - n ? L / 2 : 0};
    int at = where[sym_choose("at", L > 2 ? sym_param("P", 4) : 1)];
    char b[8]; sym_bytes("s", b, n); for (int k = 0; k < n; k++) s[at + k] = b[k];
  }
  bool ok = L <= 160;
  for (int k = 0; k < L; k++) ok &= digit(s[k]) >= 0;
  std::string t = "[" + ops::quote(s) + "]";
  uint64_t g = ops::gas(scrypt_gas, t);
  char* r = ops::run(scrypt_run, t);
  sym_observe("gas", g); sym_observe("null", !r);
  if (!ok) { sym_assert(g == 1500, "a refused argument costs 1500"); sym_assert(!r, "a refused argument gives a null result"); sym_assert(calls == 0, "nothing is hashed for a refused argument"); sym_reach("refused"); sym_end(); }
  sym_assert(g == (uint64_t)((L + 1) / 2 * 10), "ten gas for each started byte");
  sym_assert(r != nullptr, "an accepted argument gives a result");
  unsigned char want[80], dig[32];
  for (int k = 0; k < 80; k++) want[k] = 0;
  int n = (L + 1) / 2, odd = L & 1;
  for (int k = 0; k < n; k++) {
    int h = odd ? (k ? digit(s[2 * k - 1]) : 0) : digit(s[2 * k]), l = odd ? digit(s[2 * k]) : digit(s[2 * k + 1]);
    want[k] = h * 16 + l;
  }
  if (calls) { bool same = true; for (int k = 0; k < 80; k++) same &= block[k] == want[k]; sym_assert(same && calls == 1, "the block holds the decoded bytes followed by zeros"); memcpy(dig, digest, 32); }
  else scrypt_1024_1_1_256((const char*)want, (char*)dig);
  jref::Node* x = ops::text(r);
  sym_assert(x->n == 64, "the digest has 64 digits");
  bool same = true;
  for (int k = 0; k < 32; k++) for (int h = 0; h < 2; h++) { int d = h ? dig[k] & 15 : dig[k] >> 4; same &= x->s[2 * k + h] == (unsigned char)('0' + d + (d > 9 ? 39 : 0)); }
  sym_assert(same, "the result is the digest in lower-case hex");
  sym_observe_bytes("r", r, strlen(r));
  free(r); sym_reach("hashed");
}

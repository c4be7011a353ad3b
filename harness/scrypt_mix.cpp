// scrypt(N=1024, r=1, p=1) of a symbolic block against RFC 7914. SHA-256 is replaced by a function that gives each message it has not
// seen a digest of its own from a fixed sequence, so that the block stays symbolic while the mixing in between runs on known words.
#include "sym.h"
#include <stdint.h>
static void known(const unsigned char* p, unsigned n, unsigned char* out);
#define SHA_HASH known
#include "sha_stub.h"
#include <tools/eni_scrypt/scrypt.h>
namespace {
typedef std::string S;
struct Seen { unsigned n; unsigned char* p; unsigned char d[32]; };
Seen seen[64]; unsigned nseen; uint64_t rnd;
unsigned char next() { rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17; return rnd >> 32; }
}
static void known(const unsigned char* p, unsigned n, unsigned char* out) {
  for (unsigned k = 0; k < nseen; k++) if (seen[k].n == n && !memcmp(seen[k].p, p, n)) { memcpy(out, seen[k].d, 32); return; }
  sym_assert(nseen < 64, "no more messages than the derivation hashes");
  Seen& s = seen[nseen++]; s.n = n; s.p = new unsigned char[n + 1]; memcpy(s.p, p, n); for (int k = 0; k < 32; k++) s.d[k] = next(); memcpy(out, s.d, 32);
}
namespace {
S H(const S& m) { unsigned char o[32]; known((const unsigned char*)m.data(), m.size(), o); return S((char*)o, 32); }
S hmac(S key, const S& text) {
  if (key.size() > 64) key = H(key);
  key.resize(64, '\0');
  S i(64, 0), o(64, 0);
  for (int k = 0; k < 64; k++) { i[k] = key[k] ^ 0x36; o[k] = key[k] ^ 0x5c; }
  return H(o + H(i + text));
}
S pbkdf2(const S& pw, const S& salt, size_t len) {
  S out;
  for (uint32_t n = 1; out.size() < len; n++) { char be[4] = {(char)(n >> 24), (char)(n >> 16), (char)(n >> 8), (char)n}; out += hmac(pw, salt + S(be, 4)); }
  return out.substr(0, len);
}
void quarter(uint32_t* x, int a, int b, int c, int d) {
  auto rot = [](uint32_t v, int n) { return v << n | v >> (32 - n); };
  x[b] ^= rot(x[a] + x[d], 7); x[c] ^= rot(x[b] + x[a], 9); x[d] ^= rot(x[c] + x[b], 13); x[a] ^= rot(x[d] + x[c], 18);
}
void salsa(uint32_t* w) { // RFC 7914, 3: eight rounds over the 4x4 matrix, columns then rows
  uint32_t x[16]; for (int k = 0; k < 16; k++) x[k] = w[k];
  for (int r = 0; r < 4; r++) {
    for (int c = 0; c < 4; c++) quarter(x, 5 * c % 16, (5 * c + 4) % 16, (5 * c + 8) % 16, (5 * c + 12) % 16);
    for (int l = 0; l < 4; l++) quarter(x, 5 * l, 4 * l + (l + 1) % 4, 4 * l + (l + 2) % 4, 4 * l + (l + 3) % 4);
  }
  for (int k = 0; k < 16; k++) w[k] += x[k];
}
void blockmix(uint32_t* b) { // r = 1: X = B1; X = salsa(X ^ B0); Y0 = X; X = salsa(X ^ B1); Y1 = X
  uint32_t x[16]; for (int k = 0; k < 16; k++) x[k] = b[16 + k];
  for (int h = 0; h < 2; h++) { for (int k = 0; k < 16; k++) x[k] ^= b[16 * h + k]; salsa(x); for (int k = 0; k < 16; k++) b[16 * h + k] = x[k]; }
}
S romix(const S& in) {
  static uint32_t v[1024][32]; uint32_t x[32];
  for (int k = 0; k < 32; k++) { const unsigned char* p = (const unsigned char*)in.data() + 4 * k; x[k] = p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }
  for (int i = 0; i < 1024; i++) { memcpy(v[i], x, 128); blockmix(x); }
  for (int i = 0; i < 1024; i++) { unsigned j = x[16] % 1024; for (int k = 0; k < 32; k++) x[k] ^= v[j][k]; blockmix(x); }
  S out; for (int k = 0; k < 32; k++) for (int b = 0; b < 4; b++) out.push_back((char)(x[k] >> 8 * b));
  return out;
}
}
extern "C" void harness() {
  rnd = 0x9e3779b97f4a7c15ULL * (1 + sym_param("SEED", 0)); for (int k = 0; k < 9; k++) next();
  char* in = new char[80]; sym_bytes("block", in, 80);
  if (sym_param("SAME", 0)) { int by = sym_param("BY", 10), k = by * sym_choose("zero from", 80 / by + 1); memset(in + k, 0, 80 - k); }
  S block(in, 80);
  char* out = new char[32];
  if (sym_param("SP", 0)) { // a scratchpad of exactly the documented size at every address modulo 64
    int at = sym_param("AT", -1); int step = sym_param("STEP", 1); if (at < 0) at = step * sym_choose("at", 63 / step + 1);
    size_t size = SCRYPT_SCRATCHPAD_SIZE; char* area = new char[size + 127]; char* al = area + (-(uintptr_t)area & 63); char* pad = al + at;
    for (char* q = area; q < pad; q++) *q = 0x5a; for (char* q = pad + size; q < area + size + 127; q++) *q = 0x5a;
    scrypt_1024_1_1_256_sp_generic(in, out, pad);
    bool ok = true; for (char* q = area; q < pad; q++) ok &= *q == 0x5a; for (char* q = pad + size; q < area + size + 127; q++) ok &= *q == 0x5a;
    sym_assert(ok, "nothing around the scratchpad is written"); delete[] area; sym_reach("scratchpad");
  } else scrypt_1024_1_1_256(in, out);
  sym_assert(!memcmp(in, block.data(), 80), "the block is left alone");
  S want = pbkdf2(block, romix(pbkdf2(block, block, 128)), 32);
  sym_assert(!memcmp(out, want.data(), 32), "the digest is scrypt of the block");
  sym_observe_bytes("digest", out, 32);
  delete[] in; delete[] out;
  sym_reach("digest");
}

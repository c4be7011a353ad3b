// PBKDF2-HMAC-SHA256 against RFC 8018 / RFC 2104, with SHA-256 left uninterpreted: equal for every hash function.
#include "sha_stub.h"
#include <stdint.h>
#include <tools/eni_scrypt/scrypt.h>
namespace {
typedef std::string S;
S H(const S& m) { unsigned char o[32]; sym_uf("sha256", o, 32, m.data(), m.size()); return S((char*)o, 32); }
S hmac(S key, const S& text) { // RFC 2104
  if (key.size() > 64) key = H(key);
  key.resize(64, '\0');
  S i(64, 0), o(64, 0);
  for (int k = 0; k < 64; k++) { i[k] = key[k] ^ 0x36; o[k] = key[k] ^ 0x5c; }
  return H(o + H(i + text));
}
S ref(const S& pw, const S& salt, uint64_t c, size_t len) { // RFC 8018, 5.2
  S out;
  for (uint32_t n = 1; out.size() < len; n++) {
    char be[4] = {(char)(n >> 24), (char)(n >> 16), (char)(n >> 8), (char)n};
    S u = hmac(pw, salt + S(be, 4)), t = u;
    for (uint64_t r = 1; r < c; r++) { u = hmac(pw, u); for (int k = 0; k < 32; k++) t[k] ^= u[k]; }
    out += t;
  }
  return out.substr(0, len);
}
int pick(const char* n, const char* lo, const char* hi, int l, int h) { l = sym_param(lo, l); h = sym_param(hi, h); return l + sym_choose(n, h - l + 1); }
S sym(const char* n, int len) { char* p = new char[len + 1]; sym_bytes(n, p, len); S s(p, len); delete[] p; return s; }
}
extern "C" void harness() {
  int pl = pick("pwlen", "PLO", "PHI", 0, 1), sl = pick("saltlen", "SLO", "SHI", 0, 1), c = pick("count", "CLO", "CHI", 1, 1), dl = pick("outlen", "DLO", "DHI", 32, 32);
  S pw = sym("password", pl), salt = sym("salt", sl), was = pw + salt;
  unsigned char* p = new unsigned char[pl]; memcpy(p, pw.data(), pl); unsigned char* s = new unsigned char[sl]; memcpy(s, salt.data(), sl);
  unsigned char* out = new unsigned char[dl + 16]; memset(out, 0xa5, dl + 16);
  PBKDF2_SHA256(p, pl, s, sl, c, out + 8, dl);
  S want = ref(pw, salt, c, dl);
  sym_assert(memcmp(out + 8, want.data(), dl) == 0, "the derived key is that of PBKDF2");
  unsigned around = 0; for (int k = 0; k < 8; k++) around |= (out[k] ^ 0xa5) | (out[dl + 8 + k] ^ 0xa5);
  sym_assert(!around, "exactly the requested bytes are written");
  sym_assert(!memcmp(p, pw.data(), pl) && !memcmp(s, salt.data(), sl), "password and salt are left alone");
  sym_observe_bytes("key", out + 8, dl > 64 ? 64 : dl);
  delete[] p; delete[] s; delete[] out;
  sym_reach(dl ? "key" : "nothing");
}

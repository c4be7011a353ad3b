// Hex encoding and decoding of tools/eni_crypto.
#include "ossl.h"
#include <string>
namespace eni_crypto { bool str2hex(const std::string&, std::string&); bool hex2str(const std::string&, std::string&); }
using namespace eni_crypto;
static inline int digit(unsigned char c) { int d = c - '0', a = (c | 32) - 'a'; return (d >= 0) & (d <= 9) ? d : ((a >= 0) & (a < 6) ? a + 10 : -1); }
static std::string text(int L, int m, bool hex) {
  std::string s(L, 'x'); for (int k = 0; k < L; k++) s[k] = hex ? "0123456789abcdefABCDEF"[(k * 7 + 3) % 22] : (char)(k * 37 + 5);
  int n = m < 0 || m > L ? L : m; int where[] = {0, L - n, (L - n) / 2, (L - n) / 2 + ((L - n) / 2 < L - n)};
  int at = n < L ? where[sym_choose("at", 4)] : 0;
  char* b = (char*)malloc(n + 1); if (n) sym_bytes("s", b, n); for (int k = 0; k < n; k++) s[at + k] = b[k]; free(b);
  return s;
}
extern "C" void harness() {
  int lo = sym_param("LO", 0), hi = sym_param("HI", lo), L = lo + (hi > lo ? sym_choose("len", hi - lo + 1) : 0);
  bool dec = sym_param("DEC", 0);
  std::string s = text(L, sym_param("M", -1), dec);
  std::string out = sym_choose("used", 2) ? "before" : "", was = out;
  if (dec) {
    bool ok = L % 2 == 0; for (int k = 0; k < L; k++) ok &= digit(s[k]) >= 0;
    bool r = hex2str(s, out);
    sym_assert(r == ok, "exactly the even-length strings of hex digits decode");
    sym_observe("ok", r);
    if (!r) { sym_assert(out.empty() || out == was, "a refused string leaves nothing decoded"); sym_reach("refused"); return; }
    sym_assert((int)out.size() == L / 2, "one byte for each two digits");
    bool same = true; for (int k = 0; k < L / 2; k++) same &= (unsigned char)out[k] == (unsigned char)(digit(s[2 * k]) * 16 + digit(s[2 * k + 1]));
    sym_assert(same, "the decoded bytes are those of the digits"); sym_reach("decoded");
    sym_observe_bytes("out", out.data(), out.size());
  } else {
    sym_assert(str2hex(s, out), "every string is encoded");
    sym_assert((int)out.size() == 2 * L, "two digits for each byte");
    bool same = true;
    for (int k = 0; k < L; k++) for (int h = 0; h < 2; h++) { int d = h ? s[k] & 15 : (s[k] >> 4) & 15; same &= out[2 * k + h] == '0' + d + (d > 9 ? 39 : 0); }
    sym_assert(same, "the digits are those of the bytes, in lower case"); sym_reach("encoded");
    std::string back = "zz"; sym_assert(hex2str(out, back), "an encoding decodes");
    sym_assert(back.size() == s.size(), "the decoding is as long as the original"); same = true; for (int k = 0; k < L; k++) same &= back[k] == s[k];
    sym_assert(same, "decoding an encoding gives back the original");
  }
}

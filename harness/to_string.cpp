// to_string of every integer type with one symbolic byte at a position (or a small symbolic magnitude), and of booleans.
#include "jref.h"
#include <eni_types.h>
template<class T> static void go(int bits, bool neg) {
  int pos = sym_param("POS", 0), bytes = bits / 8;
  eni::s256 x = 0;
  if (pos < 0) { uint16_t m; sym_bytes("m", &m, 2); sym_assume(m < (1u << sym_param("B", 10))); x = m; }
  else {
    int fill = sym_param("FILL", 0), top = sym_param("TOP", pos); uint8_t m; sym_bytes("m", &m, 1);
    if (pos >= bytes) pos = bytes - 1; if (top >= bytes) top = bytes - 1; if (top < pos) top = pos;
    if (bits == 256 && pos == 31 && std::is_same<T, eni::s256>::value) sym_assume(m < 128);
    eni::u256 u = 0; int lim = top;
    for (int k = lim; k >= 0; k--) { u <<= 8; u |= k == pos ? (unsigned)m : (unsigned)(fill == 256 ? k * 29 & 255 : (k == 31 && std::is_same<T, eni::s256>::value) ? fill & 127 : fill); }
    T v = (T)u; if (neg) v = T(0) - v;
    std::string t = eni::to_string(v);
    sym_observe_bytes("text", t.data(), t.size());
    size_t sg = t.size() && t[0] == '-'; sym_assert(sg == (neg & (u != 0)), "a minus sign exactly for negative values");
    sym_assert(t.size() > sg, "at least one digit"); sym_assert((t[sg] != '0') | (t.size() == sg + 1), "no leading zero");
    bool dig = true; for (size_t k = sg; k < t.size(); k++) dig &= (unsigned char)(t[k] - '0') < 10; sym_assert(dig, "decimal digits");
    uint64_t w[5]; jref::mag((const unsigned char*)t.data() + sg, t.size() - sg, w);
    bool same = w[4] == 0; for (int k = 0; k < 4; k++) same &= w[k] == (uint64_t)((u >> (64 * k)) & eni::u256("18446744073709551615"));
    sym_assert(same, "the text denotes the value"); sym_reach("int"); return;
  }
  T v = (T)x; if (neg) v = T(0) - v;
  std::string t = eni::to_string(v); sym_observe_bytes("text", t.data(), t.size());
  size_t sg = t.size() && t[0] == '-'; sym_assert(sg == (neg & (x != 0)), "a minus sign exactly for negative values");
  sym_assert(t.size() > sg, "at least one digit"); sym_assert((t[sg] != '0') | (t.size() == sg + 1), "no leading zero");
  uint64_t w[5]; jref::mag((const unsigned char*)t.data() + sg, t.size() - sg, w);
  bool dig = true; for (size_t k = sg; k < t.size(); k++) dig &= (unsigned char)(t[k] - '0') < 10; sym_assert(dig, "decimal digits");
  sym_assert((w[1] | w[2] | w[3] | w[4]) == 0 && w[0] == (uint64_t)x, "the text denotes the value"); sym_reach("small");
}
extern "C" void harness() {
  switch (sym_choose("type", sym_param("BOOL", 0) ? 7 : 6)) {
    case 0: go<eni::u64>(64, false); break;
    case 1: go<eni::u128>(128, false); break;
    case 2: go<eni::u160>(160, false); break;
    case 3: go<eni::u256>(256, false); break;
    case 4: go<eni::s256>(256, false); break;
    case 5: go<eni::s256>(256, true); break;
    default: { char c; sym_bytes("b", &c, 1); sym_assume((unsigned char)c < 2); bool b = c; sym_assert(eni::to_string((eni::Bool)b) == (b ? "true" : "false"), "true or false"); sym_reach("bool"); }
  }
}

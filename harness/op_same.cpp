// The same argument text twice, other work in between: the same gas and the same result.
// OP: 1 reverse, 2 scrypt, 3 rsa_encrypt, 4 rsa_decrypt, 5 json
#if OP == 2
#include "sha_stub.h"
#elif OP == 3 || OP == 4
#include "ossl.h"
#endif
#include "ops.h"
#if OP == 1
#define NAME(x) reverse_##x
static const char* const others[] = {"[\"abc\"]", "[\"\"]", "[\"0123456789abcdef0123456789abcdef0123456789\"]", "{}"};
#elif OP == 2
#define NAME(x) scrypt_##x
static const char* const others[] = {"[\"0a1\"]", "[\"\"]", "[\"00112233445566778899aabbccddeeff00112233445566778899aabbccddeeff00112233445566778899aabbccddeeff00112233445566778899aabbccddeeff00112233445566778899aabbccddeeff\"]", "[\"zz\"]"};
void sx_scrypt(const char* in, char* out) { for (int k = 0; k < 32; k++) out[k] = k * 9; sym_uf("scrypt", out + 31, 1, in, 80); }
#elif OP == 3
#define NAME(x) rsa_encrypt_##x
static const char* const others[] = {"[\"k\",\"ab\"]", "[\"k\",\"\"]", "[\"k\",\"a message longer than the key\"]", "[1,2]"};
#elif OP == 4
#define NAME(x) rsa_decrypt_##x
static const char* const others[] = {"[\"k\",\"6162\"]", "[\"k\",\"\"]", "[\"k\",\"000102030405060708090a0b0c0d0e0f\"]", "[\"k\",\"0\"]"};
#else
#define NAME(x) json_##x
static const char* const others[] = {"[\"parseArray\",\"[1,[2]]\",0,7]", "[\"parseString\",\"\\\"a\\\\n\\\"\",0,5]", "[\"objectGet\",\"{\\\"aa\\\":[1,2,3,4,5,6,7,8]}\",0,24,\"aa\"]", "[\"none\",\"\",0,0]"};
#endif
namespace {
struct Answer { uint64_t gas; bool null; std::string text; };
#if OP == 3 || OP == 4
struct Plain { Plain() { ossl::plain = true; } ~Plain() { ossl::plain = false; } };
#else
struct Plain { ~Plain() {} };
#endif
void gasOf(const std::string& t, Answer& a) { a.gas = ops::gas(NAME(gas), t); }
void runOf(const std::string& t, Answer& a) { char* r = ops::run(NAME(run), t); a.null = !r; a.text = r ? std::string(r) : std::string(); free(r); }
Answer both(const std::string& t, bool runFirst) { Answer a; if (runFirst) { runOf(t, a); gasOf(t, a); } else { gasOf(t, a); runOf(t, a); } return a; }
void alike(const Answer& a, const Answer& b) {
  sym_assert(a.gas == b.gas, "the same argument costs the same gas");
  sym_assert(a.null == b.null, "the same argument is answered alike");
  sym_assert(a.text.size() == b.text.size(), "the same argument gives the same result");
  bool same = true; for (size_t k = 0; k < a.text.size(); k++) same &= a.text[k] == b.text[k];
  sym_assert(same, "the same argument gives the same result");
}
void** keep; int kept;
void disturb() { // memory with other contents, other blocks in use
  for (size_t n : {1, 8, 16, 24, 33, 48, 64, 65, 80, 100, 200, 1000}) { char* p = (char*)malloc(n); memset(p, 0xa5, n); char* q = (char*)malloc(n); memset(q, 0x5a, n); free(p); if (kept < 64) keep[kept++] = q; }
}
std::string argument() {
  int L = sym_param("L", 2), n = sym_choose("len", L + 1); std::string s = jbuild::symString(n), pad(sym_param("PAD", 0), OP == 2 || OP == 4 ? '7' : 'p');
#if OP == 1 || OP == 2
  int k = sym_choose("text", 4);
  if (k == 1) return "[" + ops::quote(pad + s) + ",5,{\"a\":[]}]";
  if (k == 2) return OP == 1 ? "{\"a\":" + ops::quote(s) + "}" : "[[" + ops::quote(s) + "]]";
  if (k == 3) return ops::quote(s);
  return "[" + ops::quote(pad + s) + "]";
#elif OP == 3 || OP == 4
  ossl::keyOk = !sym_choose("badKey", 2);
  int k = sym_choose("text", 3);
  if (k == 1) return "[" + ops::quote(s) + ",\"00\"]";
  if (k == 2) return "[" + ops::quote(s) + "]";
  return "[\"a key\"," + ops::quote(pad + s) + "]";
#else
  static const char* const f[] = {"parseString", "parseArray", "arrayGet", "objectGet", "nothing"};
  int k = sym_choose("text", 5); std::string v = k == 0 ? ops::quote(s) : k == 3 ? "{" + ops::quote(s) + ":[1],\"z\":" + ops::quote(s) + "}" : "[7," + ops::quote(s) + ",{}]";
  std::string d = pad + v; char num[40]; snprintf(num, sizeof num, ",%d,%d", (int)pad.size(), (int)d.size());
  return std::string("[\"") + f[k] + "\"," + ops::quote(d) + num + (k == 2 ? ",1]" : k == 3 ? sym_choose("which", 2) ? ",\"z\"]" : "," + ops::quote(s) + "]" : "]");
#endif
}
}
extern "C" void harness() {
#if OP == 3 || OP == 4
  ossl::uf = true; ossl::size = sym_param("SIZE", 4);
#endif
  keep = (void**)calloc(64, sizeof(void*));
  std::string t = argument();
  bool early = sym_param("EARLY", 0) && sym_choose("early", 2); if (early) { Plain p; Answer o; runOf(others[sym_choose("earlier", 4)], o); }
  Answer a = both(t, sym_choose("first", 2));
  int H = sym_param("H", 2), rep = sym_param("REP", 1);
  for (int h = 0; h < H; h++) { static const char* const nm[] = {"h0", "h1", "h2", "h3"};
    int k = sym_choose(nm[h], 7); Answer o;
    if (k == 6) break;
    for (int r = 0; r < rep; r++) if (k == 5) disturb(); else if (k == 4) alike(a, both(t, true)); else { Plain p; if (r & 1) gasOf(others[k], o); else runOf(others[k], o); } }
  disturb();
  Answer b = both(t, H > 1 ? true : sym_choose("second", 2));
  alike(a, b);
  sym_reach(a.null ? "null" : "result");
  sym_observe("gas", a.gas); sym_observe_bytes("text", a.text.data(), a.text.size());
}

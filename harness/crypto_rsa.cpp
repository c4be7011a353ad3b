// RSA operations over stand-ins for the crypto library: what is passed in, what is made of every outcome.
#include "ossl.h"
#include "ops.h"
typedef struct rsa_st RSA;
namespace eni_crypto { namespace rsa {
RSA* create_privkey(const std::string&); RSA* create_pubkey(const std::string&); void destroy(RSA*&);
bool pub_encrypt(RSA&, const std::string&, std::string&); bool pub_decrypt(RSA&, const std::string&, std::string&);
bool priv_encrypt(RSA&, const std::string&, std::string&); bool priv_decrypt(RSA&, const std::string&, std::string&);
} }
using namespace eni_crypto;
static int digit(unsigned char c) { int d = c - '0', a = (c | 32) - 'a'; return (d >= 0) & (d <= 9) ? d : ((a >= 0) & (a < 6) ? a + 10 : -1); }
static std::string hex(const std::string& s, bool up) { std::string r; for (unsigned char c : s) for (int h = 0; h < 2; h++) { int d = h ? c & 15 : c >> 4; r += (char)('0' + d + (d > 9 ? up ? 7 : 39 : 0)); } return r; }
static bool same(const std::string& a, const std::string& b) { if (a.size() != b.size()) return false; bool ok = true; for (size_t k = 0; k < a.size(); k++) ok &= a[k] == b[k]; return ok; }
static std::string message(int len) {
  int m = sym_param("M", -1); if (m < 0 || len <= m) return jbuild::symString(len);
  std::string s(len, 'm'); int at = sym_choose("at", 2) ? len - m : 0; std::string b = jbuild::symString(m); s.replace(at, m, b); return s;
}
static void direct(int size) {
  int kind = 1 + sym_choose("kind", 4); bool enc = kind == 1 || kind == 3;
  int len = sym_param("FULL", 0) ? size - 1 + sym_choose("len", 3) : sym_choose("len", size + 3);
  std::string m = message(len), out = "before";
  ossl::opOk = !sym_choose("fails", 2);
  RSA* key = kind == 1 || kind == 2 ? rsa::create_pubkey("some key") : rsa::create_privkey("some key");
  sym_assert(key != nullptr, "a readable key is accepted");
  sym_assert(ossl::pem == "some key", "the key text is passed on");
  bool r = kind == 1 ? rsa::pub_encrypt(*key, m, out) : kind == 2 ? rsa::pub_decrypt(*key, m, out) : kind == 3 ? rsa::priv_encrypt(*key, m, out) : rsa::priv_decrypt(*key, m, out);
  sym_observe("r", r);
  if (len > size || !ossl::opOk) { sym_assert(!r, "a message longer than the key or a failing library gives no result"); sym_reach("failed"); }
  else {
    sym_assert(r, "a message that fits is processed");
    sym_assert(ossl::calls == 1 && ossl::kind == kind, "the right library function is called once");
    sym_assert(ossl::padding == RSA_NO_PADDING, "no padding is asked for");
    std::string want = m; if (enc) want.append(size - len, '\0');
    sym_assert(same(ossl::in, want), "the message is passed exactly, padded with zero bytes to encrypt");
    std::string res = ossl::out; if (!enc) res = res.c_str();
    sym_assert(same(out, res), "the result is the library's, up to its first zero byte when decrypted");
    sym_reach("processed");
  }
  rsa::destroy(key); sym_assert(!key && ossl::live == 0, "the key is released");
}
static void ops_(int size) {
  bool enc = sym_choose("enc", 2);
  int lens[] = {0, 1, size - 1, size, size + 1};
  int len = sym_param("FULL", 0) ? lens[sym_choose("len", 5)] : sym_choose("len", size + 2); std::string m = message(len);
  int fault = sym_choose("fault", 4); ossl::keyOk = fault != 1; ossl::opOk = fault != 2; ossl::bioOk = fault != 3;
  std::string arg = m; bool good = true;
  if (!enc) {
    arg = hex(m, sym_choose("up", 2));
    int bad = sym_choose("bad", 4);
    if (bad == 1) { arg += '0'; good = false; }
    else if (bad == 2 && arg.size()) { char c; sym_bytes("c", &c, 1); sym_assume((unsigned char)(c - ' ') < 95 && c != '"' && c != '\\'); arg[sym_choose("where", 2) ? arg.size() - 1 : 0] = c; good = digit(c) >= 0; if (good) sym_end(); }
    else if (bad == 3 && arg.size() > 1) { arg = arg.substr(1); good = false; }
    else sym_assume(!bad);
  }
  std::string t = "[\"a key\"," + ops::quote(arg) + "]";
  bool fit = good && ossl::keyOk && ossl::bioOk;
  uint64_t g = ops::gas(enc ? rsa_encrypt_gas : rsa_decrypt_gas, t);
  sym_assert(g == (fit ? 10u * size : 1500u), "ten gas per key byte, 1500 when refused");
  char* r = ops::run(enc ? rsa_encrypt_run : rsa_decrypt_run, t);
  sym_observe("gas", g); sym_observe("null", !r);
  sym_assert(ossl::live == 0, "the keys are released");
  if (!fit) { sym_assert(!r, "a bad key or text gives a null result"); sym_assert(!ossl::calls, "nothing is computed for refused arguments"); sym_reach("refused"); return; }
  if (len > size || !ossl::opOk) { sym_assert(!r, "a message longer than the key or a failing library gives a null result"); sym_reach("null"); return; }
  sym_assert(r != nullptr, "a message that fits gives a result");
  sym_assert(ossl::pem == "a key", "the key text is passed on");
  sym_assert(ossl::kind == (enc ? 1 : 4) && ossl::padding == RSA_NO_PADDING, "the right library function is called");
  std::string want = m; if (enc) want.append(size - len, '\0'); sym_assert(same(ossl::in, want), "the message is passed exactly");
  jref::Node* x = ops::text(r);
  std::string res = enc ? hex(ossl::out, false) : std::string(ossl::out.c_str());
  sym_assert(ops::is(x, res), "the result is the ciphertext in hex, or the plaintext up to its first zero byte");
  if (enc) { // and back: the library inverts its own ciphertexts
    for (char c : m) sym_assume(c != 0);
    std::string ct = ossl::out; ossl::force = true; ossl::forced = ossl::in;
    char* b = ops::run(rsa_decrypt_run, "[\"a key\",\"" + std::string((const char*)x->s, x->n) + "\"]");
    sym_assert(same(ossl::in, ct), "the ciphertext is passed exactly");
    sym_assert(b != nullptr, "a ciphertext decrypts");
    sym_assert(ops::is(ops::text(b), m), "decrypting an encrypted message returns it"); sym_reach("back");
  }
  free(r); sym_reach("result");
}
extern "C" void harness() {
  int lo = sym_param("LO", 1), hi = sym_param("HI", lo); ossl::size = lo + (hi > lo ? sym_choose("size", hi - lo + 1) : 0);
  if (sym_param("OPS", 0)) ops_(ossl::size); else direct(ossl::size);
}

// RSA operations over stand-ins for the crypto library: everything obtained is given back, whatever the outcome.
#include "ossl.h"
#include "ops.h"
namespace eni_crypto { namespace rsa {
RSA* create_privkey(const std::string&); RSA* create_pubkey(const std::string&); void destroy(RSA*&);
bool pub_encrypt(RSA&, const std::string&, std::string&); bool pub_decrypt(RSA&, const std::string&, std::string&);
bool priv_encrypt(RSA&, const std::string&, std::string&); bool priv_decrypt(RSA&, const std::string&, std::string&);
} }
using namespace eni_crypto;
static std::string text(int n) { char b[8]; sym_bytes("s", b, n); return std::string(b, n); } // leaves nothing on the heap
static void faults() { int f = sym_choose("fault", 4); ossl::keyOk = f != 1; ossl::opOk = f != 2; ossl::bioOk = f != 3; sym_reach(f == 0 ? "fine" : "fault"); }
static void direct() {
  size_t before = sym_heap();
  { int kind = 1 + sym_choose("kind", 4), len = sym_choose("len", ossl::size + 3); faults();
    std::string m = text(len), out;
    RSA* key = kind == 1 || kind == 2 ? rsa::create_pubkey("some key of which there is only one") : rsa::create_privkey("some key of which there is only one");
    sym_assert(ossl::bios == 0, "the stream of the key text is released");
    if (key) { bool r = kind == 1 ? rsa::pub_encrypt(*key, m, out) : kind == 2 ? rsa::pub_decrypt(*key, m, out) : kind == 3 ? rsa::priv_encrypt(*key, m, out) : rsa::priv_decrypt(*key, m, out); sym_observe("r", r); rsa::destroy(key); }
    sym_assert(ossl::live == 0, "the key is released"); }
  for (std::string* s : {&ossl::pem, &ossl::in, &ossl::out, &ossl::forced}) std::string().swap(*s);
  sym_assert(sym_heap() == before, "every buffer of the call is released"); sym_reach("released");
}
static void calls() {
  bool enc = sym_choose("enc", 2); int args = sym_choose("args", 6), kind = sym_choose("message", 4); faults();
  std::string m = kind == 0 ? "" : kind == 1 ? "6162" : kind == 2 ? "61626" : "6162636465666768696a";
  std::string t = args == 0 ? "[]" : args == 1 ? "[\"key\"]" : args == 2 ? "[\"key\",5]" : args == 3 ? "{}" : "[\"key\",\"" + m + "\"]";
  ops::gas(enc ? rsa_encrypt_gas : rsa_decrypt_gas, t); sym_assert(!ossl::live && !ossl::bios, "the gas entry point releases its key and stream");
  char* r = ops::run(enc ? rsa_encrypt_run : rsa_decrypt_run, t); sym_observe("null", !r); free(r);
  sym_assert(!ossl::live && !ossl::bios, "the run entry point releases its key and stream"); sym_reach(r ? "result" : "no result");
}
extern "C" void harness() { ossl::size = sym_param("SIZE", 4); if (sym_param("OPS", 0)) calls(); else direct(); }

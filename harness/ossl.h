// Stand-ins for the OpenSSL calls of tools/eni_crypto: they check the buffers they are given, record the calls and answer symbolically.
#pragma once
#include "sym.h"
#include <string>
#include <string.h>
#include <stdlib.h>
#define RSA_NO_PADDING 3
extern "C" { struct rsa_st { int size; int alive; int priv; }; struct bio_st { const char* p; int n; int pos; }; typedef struct rsa_st RSA; typedef struct bio_st BIO; }
namespace ossl {
static int size = 4, live, freed, bios; static bool keyOk = true, opOk = true, bioOk = true; static int outLen = -1;
static std::string pem, in, out; static int calls, kind, padding, inLen; static std::string forced; static bool force, uf, plain;
static void touch(const void* p, int n) { const volatile unsigned char* q = (const volatile unsigned char*)p; unsigned char x = 0; for (int k = 0; k < n; k++) x ^= q[k]; (void)x; }
}
extern "C" {
BIO* BIO_new_mem_buf(const void* b, int n) { if (!ossl::bioOk) return nullptr; BIO* r = (BIO*)malloc(sizeof(BIO)); ossl::bios++; r->p = (const char*)b; r->n = n < 0 ? (int)strlen((const char*)b) : n; r->pos = 0; ossl::pem.assign(r->p, r->n); return r; }
int BIO_free(BIO* b) { if (!b) return 0; ossl::bios--; if (b->pos) free((void*)b->p); free(b); return 1; }
void BIO_free_all(BIO* b) { BIO_free(b); }
void BIO_vfree(BIO* b) { BIO_free(b); }
const void* BIO_s_mem() { return "mem"; }
const void* BIO_s_secmem() { return "mem"; }
BIO* BIO_new(const void*) { if (!ossl::bioOk) return nullptr; BIO* r = (BIO*)malloc(sizeof(BIO)); ossl::bios++; r->p = (char*)malloc(1); r->n = 0; r->pos = 1; ossl::pem.clear(); return r; } // pos: owns its bytes
int BIO_write(BIO* b, const void* d, int n) { if (!b || !b->pos || n < 0) return -1; char* q = (char*)malloc(b->n + n + 1); memcpy(q, b->p, b->n); memcpy(q + b->n, d, n); free((void*)b->p); b->p = q; b->n += n; ossl::pem.assign(b->p, b->n); return n; }
int BIO_puts(BIO* b, const char* t) { return BIO_write(b, t, (int)strlen(t)); }
static RSA* sx_key(BIO* b, RSA** x, int priv) { if (!b) return nullptr; ossl::touch(b->p, b->n); if (!ossl::keyOk) return nullptr; RSA* r = (RSA*)malloc(sizeof(RSA)); r->size = ossl::size; r->alive = 1; r->priv = priv; ossl::live++; if (x) *x = r; return r; }
RSA* PEM_read_bio_RSA_PUBKEY(BIO* b, RSA** x, void*, void*) { return sx_key(b, x, 0); }
RSA* PEM_read_bio_RSAPrivateKey(BIO* b, RSA** x, void*, void*) { return sx_key(b, x, 1); }
int RSA_bits(const RSA* r) { return r->size * 8; }
void OPENSSL_cleanse(void* p, size_t n) { memset(p, 0, n); }
unsigned long ERR_get_error() { return 0; }
unsigned long ERR_peek_error() { return 0; }
void ERR_clear_error() {}
void RSA_free(RSA* r) { if (!r) return; sym_assert(r->alive == 1, "a key is released once"); r->alive = 0; ossl::live--; ossl::freed++; free(r); }
int RSA_size(const RSA* r) { sym_assert(r && r->alive == 1, "a live key is used"); return r->size; }
static bool sx_at() { static int at = -1; if (at < 0) at = sym_choose("rsaAt", 2); return at; }
static int sx_op(int kind, int n, const unsigned char* f, unsigned char* t, RSA* r, int pad) {
  sym_assert(r && r->alive == 1, "a live key is used");
  ossl::calls++; ossl::kind = kind; ossl::padding = pad; ossl::inLen = n;
  sym_assert(n >= 0, "the message length is not negative");
  ossl::touch(f, n); ossl::in.assign((const char*)f, n);
  bool enc = kind == 1 || kind == 3;
  // without padding the data to encrypt must be as long as the key; data to decrypt may be shorter
  if (!ossl::opOk || (enc ? n != r->size : n > r->size)) return -1;
  std::string o;
  if (ossl::uf) { std::string i(1, (char)kind); i += ossl::in; o.resize(r->size); if (ossl::plain) for (int k = 0; k < r->size; k++) o[k] = k & 1 ? 0 : 'x'; else { sym_uf("rsa", &o[0], r->size, i.data(), i.size()); for (int k = 1; k < r->size; k++) o[k] = 0x60 | (o[k] & 7); } }
  else if (ossl::force) o = ossl::forced; else {
    o.resize(r->size);
    if (r->size <= 6) { if (r->size) sym_bytes("rsa", &o[0], r->size); }
    else { // long results: symbolic at the start, in the middle and at the end
      for (int k = 0; k < r->size; k++) o[k] = (char)(k * 14 + 1);
      char b[2]; sym_bytes("rsa", b, 2); o[sx_at() ? 0 : r->size / 2] = b[0]; o[r->size - 1] = b[1]; }
  }
  memcpy(t, o.data(), o.size());
  ossl::out = o;
  return o.size();
}
int RSA_public_encrypt(int n, const unsigned char* f, unsigned char* t, RSA* r, int p) { return sx_op(1, n, f, t, r, p); }
int RSA_public_decrypt(int n, const unsigned char* f, unsigned char* t, RSA* r, int p) { return sx_op(2, n, f, t, r, p); }
int RSA_private_encrypt(int n, const unsigned char* f, unsigned char* t, RSA* r, int p) { return sx_op(3, n, f, t, r, p); }
int RSA_private_decrypt(int n, const unsigned char* f, unsigned char* t, RSA* r, int p) { return sx_op(4, n, f, t, r, p); }
}

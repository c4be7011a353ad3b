// SHA-256 of OpenSSL as an uninterpreted function of the message: a context names an immutable record of the bytes fed so far,
// so that it may be copied and wiped like the real one.
#pragma once
#include "sym.h"
#include <openssl/sha.h>
#include <string>
#include <string.h>
namespace sha {
struct Rec { unsigned n; unsigned char* p; };
static Rec recs[4096]; static unsigned count;
static unsigned add(const unsigned char* a, unsigned an, const unsigned char* b, unsigned bn) {
  sym_assert(count < 4096, "stand-in has room");
  Rec& r = recs[count]; r.n = an + bn; r.p = new unsigned char[r.n + 1];
  if (an) memcpy(r.p, a, an);
  if (bn) memcpy(r.p + an, b, bn);
  return count++;
}
#ifdef SHA_HASH
static void hash(const unsigned char* p, unsigned n, unsigned char* out) { SHA_HASH(p, n, out); }
#else
static void hash(const unsigned char* p, unsigned n, unsigned char* out) { sym_uf("sha256", out, 32, p, n); }
#endif
static const unsigned Magic = 0x5ab1e256;
}
extern "C" {
int SHA256_Init(SHA256_CTX* c) { memset(c, 0, sizeof *c); c->h[0] = sha::add(nullptr, 0, nullptr, 0); c->h[1] = sha::Magic; return 1; }
int SHA256_Update(SHA256_CTX* c, const void* d, size_t n) {
  sym_assert(c->h[1] == sha::Magic, "a started hash is fed");
  sha::Rec& r = sha::recs[c->h[0]]; c->h[0] = sha::add(r.p, r.n, (const unsigned char*)d, n); return 1; }
int SHA256_Final(unsigned char* md, SHA256_CTX* c) {
  sym_assert(c->h[1] == sha::Magic, "a started hash is finished");
  sha::Rec& r = sha::recs[c->h[0]]; sha::hash(r.p, r.n, md); memset(c, 0, sizeof *c); return 1; }
unsigned char* SHA256(const unsigned char* d, size_t n, unsigned char* md) { static unsigned char b[32]; if (!md) md = b; sha::hash(d, n, md); return md; }
}

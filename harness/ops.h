// Calls of shipped operations through their C entry points.
#pragma once
#include "jbuild.h"
extern "C" {
uint64_t* reverse_gas(char*); char* reverse_run(char*);
uint64_t* scrypt_gas(char*); char* scrypt_run(char*);
uint64_t* json_gas(char*); char* json_run(char*);
uint64_t* rsa_encrypt_gas(char*); char* rsa_encrypt_run(char*);
uint64_t* rsa_decrypt_gas(char*); char* rsa_decrypt_run(char*);
}
namespace ops {
// an exact-size heap copy of the text: reads beyond it are seen
inline char* arg(const std::string& s) { char* p = (char*)malloc(s.size() + 1); memcpy(p, s.data(), s.size()); p[s.size()] = 0; return p; }
inline uint64_t gas(uint64_t* (*f)(char*), const std::string& t) {
  char* a = arg(t); uint64_t* g = nullptr;
  try { g = f(a); } catch (...) { sym_fail("an exception escapes the gas entry point"); }
  sym_assert(g != nullptr, "the gas entry point answers");
  free(a); uint64_t r = *g; free(g); return r;
}
inline char* run(char* (*f)(char*), const std::string& t) {
  char* a = arg(t); char* r = nullptr;
  try { r = f(a); } catch (...) { sym_fail("an exception escapes the run entry point"); }
  free(a); return r;
}
// the only element of the result, which must be a string
inline jref::Node* text(const char* r) {
  int len = strlen(r);
  jref::Reader rd{(const unsigned char*)r, len, 0, true};
  jref::Node* n = rd.value(0);
  sym_assert(rd.ok && rd.i == len && n->ty == jref::Arr && n->cnt == 1 && n->kid[0]->ty == jref::Str, "the result is an array of one string");
  return n->kid[0];
}
inline bool is(const jref::Node* n, const std::string& s) {
  if (n->n != (int)s.size()) return false;
  bool ok = true; for (int k = 0; k < n->n; k++) ok &= n->s[k] == (unsigned char)s[k];
  return ok;
}
// quotes a string as JSON without deciding anything about its bytes beyond what the text needs
inline std::string quote(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == 0) r += "\\u0000";
    else r += c;
  }
  return r + "\"";
}
}

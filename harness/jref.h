// Reference JSON reader for the dialect of docs/types: independent of /repo's parser.
#pragma once
#include "sym.h"
#include <string.h>
#include <stdlib.h>
#include <string>
#include <json/Value.h>
#include <json/Object.h>
#include <json/Array.h>
#include <json/Parser.h>

namespace jref {
enum Ty { Int, Bool, Str, Obj, Arr };
struct Node {
  Ty ty; bool b; bool neg; unsigned char* s; int n;   // Str: bytes; Int: decimal digits
  Node** kid; unsigned char** key; int* keyn; int cnt;
};
struct Reader {
  const unsigned char* t; int n, i; bool ok;
  int at(int k) const { return k < n ? t[k] : -1; }
  void ws() { for (;;) { int c = at(i); if (c == ' ' || c == '\t' || c == '\n' || c == '\r') i++; else return; } }
  Node* mk(Ty ty) { Node* r = (Node*)calloc(1, sizeof(Node)); r->ty = ty; return r; }
  Node* bad() { ok = false; return nullptr; }
  static bool ishex(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
  static int hexv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
  bool lit(const char* w) { for (int k = 0; w[k]; k++) if (at(i + k) != w[k]) return false; i += strlen(w); return true; }
  // string body after the opening quote
  bool str(unsigned char*& out, int& len) {
    out = (unsigned char*)malloc(n + 1); len = 0;
    for (;;) {
      int c = at(i);
      if (c == -1) return false;
      i++;
      if (c == '"') return true;
      if (c != '\\') { out[len++] = c; continue; }
      c = at(i); if (c == -1) return false; i++;
      switch (c) {
        case '"': case '\\': case '/': out[len++] = c; break;
        case 'b': out[len++] = 8; break;
        case 'f': out[len++] = 12; break;
        case 'n': out[len++] = 10; break;
        case 'r': out[len++] = 13; break;
        case 't': out[len++] = 9; break;
        case 'u': {
          for (int k = 0; k < 4; k++) if (!ishex(at(i + k))) return false;
          out[len++] = hexv(t[i + 2]) * 16 + hexv(t[i + 3]); i += 4; break; }   // one byte: the low half of the code unit
        default: return false;
      }
    }
  }
  Node* value(int depth) {
    ws();
    int c = at(i);
    if (c == '{') {
      i++; Node* r = mk(Obj); r->kid = (Node**)calloc(n + 1, sizeof(Node*)); r->key = (unsigned char**)calloc(n + 1, sizeof(char*)); r->keyn = (int*)calloc(n + 1, sizeof(int));
      ws(); if (at(i) == '}') { i++; return r; }
      for (;;) {
        ws(); if (at(i) != '"') return bad(); i++;
        unsigned char* k; int kn; if (!str(k, kn)) return bad();
        ws(); if (at(i) != ':') return bad(); i++;
        Node* v = value(depth + 1); if (!ok) return nullptr;
        r->key[r->cnt] = k; r->keyn[r->cnt] = kn; r->kid[r->cnt++] = v;
        ws(); if (at(i) == ',') { i++; continue; }
        if (at(i) == '}') { i++; return r; }
        return bad();
      }
    }
    if (c == '[') {
      i++; Node* r = mk(Arr); r->kid = (Node**)calloc(n + 1, sizeof(Node*));
      ws(); if (at(i) == ']') { i++; return r; }
      for (;;) {
        Node* v = value(depth + 1); if (!ok) return nullptr;
        r->kid[r->cnt++] = v;
        ws(); if (at(i) == ',') { i++; continue; }
        if (at(i) == ']') { i++; return r; }
        return bad();
      }
    }
    if (c == '"') { i++; Node* r = mk(Str); if (!str(r->s, r->n)) return bad(); return r; }
    if (c == 't') { if (!lit("true")) return bad(); Node* r = mk(Bool); r->b = true; return r; }
    if (c == 'f') { if (!lit("false")) return bad(); Node* r = mk(Bool); r->b = false; return r; }
    Node* r = mk(Int); r->s = (unsigned char*)malloc(n + 1);
    if (c == '-') { r->neg = true; i++; c = at(i); }
    if (c == '0') { i++; r->s[r->n++] = '0'; return r; }
    if (!(c >= '1' && c <= '9')) return bad();
    while (at(i) >= '0' && at(i) <= '9') r->s[r->n++] = t[i++];
    return r;
  }
};
// reads text t[0..n): null when it is rejected
inline Node* read(const unsigned char* t, int n) { Reader r{t, n, 0, true}; Node* v = r.value(0); return r.ok ? v : nullptr; }

// magnitude of a decimal digit string, modulo 2^320, as 64-bit limbs
inline void mag(const unsigned char* d, int n, uint64_t* w) {
  for (int k = 0; k < 5; k++) w[k] = 0;
  for (int j = 0; j < n; j++) {
    unsigned __int128 c = d[j] - '0';
    for (int k = 0; k < 5; k++) { c += (unsigned __int128)w[k] * 10; w[k] = (uint64_t)c; c >>= 64; }
  }
}
inline bool sameInt(const eni::s256& v, const Node* x) {
  uint64_t w[5]; mag(x->s, x->n, w);
  const auto& b = v.backend(); unsigned sz = b.size();
  if (sz < 1 || sz > 4) return false;
  bool ok = true, zero = true;
  for (unsigned k = 0; k < 5; k++) { ok &= (k < sz ? b.limbs()[k] : 0) == w[k]; zero &= w[k] == 0; }
  ok &= b.sign() == (x->neg & !zero);
  return ok;
}
inline bool sameBytes(const std::string& s, const unsigned char* p, int n) {
  if ((int)s.size() != n) return false;
  bool ok = true; const char* d = s.data();
  for (int k = 0; k < n; k++) ok &= (unsigned char)d[k] == p[k];
  return ok & (d[n] == 0);
}
inline bool keyEq(const unsigned char* a, int an, const unsigned char* b, int bn) { if (an != bn) return false; bool e = true; for (int k = 0; k < an; k++) e &= a[k] == b[k]; return e; }
// how v differs from x: 2 string bytes, 4 integer, 8 structure or kind; forks only on the structure
inline int differ(const json::Value& v, const Node* x) {
  switch (x->ty) {
    case Int: return !v.isInteger() ? 8 : sameInt(v.toInteger(), x) ? 0 : 4;
    case Bool: return !v.isBoolean() || v.toBoolean() != x->b ? 8 : 0;
    case Str: return !v.isString() ? 8 : sameBytes(v.toString(), x->s, x->n) ? 0 : 2;
    case Arr: {
      if (!v.isArray()) return 8;
      const json::Array& a = v.toArray();
      if ((int)a.size() != x->cnt || a.empty() != (x->cnt == 0)) return 8;
      int bad = 0;
      for (int k = 0; k < x->cnt; k++) bad |= differ(v[k], x->kid[k]);
      return bad; }
    case Obj: {
      if (!v.isObject()) return 8;
      const json::Object& o = v.toObject();
      int distinct = 0, bad = 0, missing = 0, lastm = 0;
      for (int k = 0; k < x->cnt; k++) {
        bool last = true; for (int m = k + 1; m < x->cnt; m++) if (keyEq(x->key[k], x->keyn[k], x->key[m], x->keyn[m])) last = false;
        if (!last) continue;
        distinct++;
        std::string key((const char*)x->key[k], x->keyn[k]);
        json::Object::const_iterator it = o.find(key);
        if (it == o.end()) { missing++; lastm = k; continue; }
        bad |= differ(it->value(), x->kid[k]);
        bad |= differ(v[key], x->kid[k]);
      }
      if ((int)o.size() != distinct || o.empty() != (distinct == 0)) bad |= missing ? 2 | 8 : 8;
      if (missing) bad |= 2;            // as many entries, but under another key: the key's bytes are wrong
      return bad; }
  }
  return 8;
}
inline bool same(const json::Value& v, const Node* x) { return differ(v, x) == 0; }
}

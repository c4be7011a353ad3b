// Values built through the public API together with the reference tree they must equal.
#pragma once
#include "jref.h"
#include <stdio.h>
namespace jbuild {
using jref::Node;
struct Built { json::Value v; Node* n; };
static int g_id;
static const char* name(const char* p) { char* b = (char*)malloc(24); snprintf(b, 24, "%s%d", p, g_id++); return b; }
inline Node* mk(jref::Ty t) { Node* r = (Node*)calloc(1, sizeof(Node)); r->ty = t; return r; }
static const char* const ints[] = {"0", "1", "-1", "2147483647", "-2147483648", "18446744073709551616", "-9999999999999999999", "57896044618658097711785492504343953926634992332820282019728792003956564819967", "-57896044618658097711785492504343953926634992332820282019728792003956564819967", "1000000000000000000000000000000000000000000"};
inline Node* intNode(const char* d) { Node* n = mk(jref::Int); if (*d == '-') { n->neg = true; d++; } n->s = (unsigned char*)strdup(d); n->n = strlen(d); return n; }
inline Node* strNode(const std::string& s) { Node* n = mk(jref::Str); n->n = s.size(); n->s = (unsigned char*)malloc(n->n + 1); memcpy(n->s, s.data(), n->n); return n; }
inline std::string symString(int len) {
  char* b = (char*)malloc(len + 1); sym_bytes(name("s"), b, len);
  return std::string(b, len);
}
inline Node* copy(const Node* x) {
  Node* n = mk(x->ty); *n = *x;
  if (x->kid) { n->kid = (Node**)calloc(x->cnt + 2, sizeof(Node*)); for (int k = 0; k < x->cnt; k++) n->kid[k] = copy(x->kid[k]); }
  if (x->key) { n->key = (unsigned char**)calloc(x->cnt + 2, sizeof(char*)); n->keyn = (int*)calloc(x->cnt + 2, sizeof(int)); for (int k = 0; k < x->cnt; k++) { n->key[k] = x->key[k]; n->keyn[k] = x->keyn[k]; } }
  return n;
}
inline void add(Node* n, Node* kid) { n->kid = (Node**)realloc(n->kid, (n->cnt + 1) * sizeof(Node*)); n->kid[n->cnt++] = kid; }
inline void put(Node* n, const std::string& k, Node* kid) {
  n->key = (unsigned char**)realloc(n->key, (n->cnt + 1) * sizeof(char*)); n->keyn = (int*)realloc(n->keyn, (n->cnt + 1) * sizeof(int));
  n->key[n->cnt] = (unsigned char*)malloc(k.size() + 1); memcpy(n->key[n->cnt], k.data(), k.size()); n->keyn[n->cnt] = k.size(); add(n, kid);
}
// a value of the public API equal to the reference tree
inline json::Value value(const Node* n) {
  switch (n->ty) {
    case jref::Bool: return json::Value(n->b);
    case jref::Str: return json::Value(std::string((const char*)n->s, n->n));
    case jref::Int: { std::string d((const char*)n->s, n->n); if (n->neg) d = "-" + d; return json::Value(eni::s256(d)); }
    case jref::Arr: { json::Array a; for (int k = 0; k < n->cnt; k++) a.push_back(value(n->kid[k])); return json::Value(a); }
    case jref::Obj: { json::Object o; for (int k = 0; k < n->cnt; k++) { json::Value v = value(n->kid[k]); o[std::string((const char*)n->key[k], n->keyn[k])] = v; } return json::Value(o); }
  }
  return json::Value();
}
// every tree of the given depth and width; strings of up to L symbolic bytes
inline Node* tree(int depth, int width, int L, int nints) {
  int kinds = depth > 0 ? 5 : 3;
  switch (sym_choose(name("kind"), kinds)) {
    case 0: { Node* n = mk(jref::Bool); n->b = sym_choose(name("b"), 2); return n; }
    case 1: return intNode(ints[sym_choose(name("i"), nints)]);
    case 2: return strNode(symString(sym_choose(name("len"), L + 1)));
    case 3: { Node* n = mk(jref::Arr); int w = sym_choose(name("w"), width + 1); for (int k = 0; k < w; k++) add(n, tree(depth - 1, width, L, nints)); return n; }
    default: { Node* n = mk(jref::Obj); int w = sym_choose(name("w"), width + 1); for (int k = 0; k < w; k++) { std::string key = symString(sym_choose(name("klen"), L + 1)); if (w > 1) for (char c : key) sym_assume((unsigned char)(c - 'a') < 4); put(n, key, tree(depth - 1, width, L, nints)); } return n; }
  }
}
}

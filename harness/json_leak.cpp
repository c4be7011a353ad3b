// What a JSON value owns is released with it. CASE -1: strings, booleans, empty and flat containers; otherwise one known finding each.
#include "jbuild.h"
#include <eni.h>
using json::Value;
static std::string text(int n) { char b[8]; sym_bytes("s", b, n); return std::string(b, n); } // leaves nothing on the heap
static void plain() {
  int kind = sym_choose("kind", 6), len = sym_choose("len", 3); std::string s = text(len); if (len == 2) s += "a tail that moves the string to the heap";
  json::Array a; json::Object o;
  if (kind == 4) for (int k = 0; k < 3; k++) a.push_back(Value(k == 1));
  if (kind == 5) { o["a key that is longer than a string stores in place"] = Value(true); o["k"] = Value(false); }
  Value* v = kind == 0 ? new Value(s) : kind == 1 ? new Value(true) : kind == 2 || kind == 4 ? new Value(a) : kind == 3 || kind == 5 ? new Value(o) : nullptr;
  int how = sym_choose("how", 5);
  if (how == 1) { Value* w = new Value(*v); delete v; v = w; }
  else if (how == 2) { Value* w = new Value(std::move(*v)); delete v; v = w; }
  else if (how == 3) { Value* w = new Value(); *w = *v; delete v; v = w; }
  else if (how == 4) { Value* w = new Value(); if (v->isArray()) w->delegate(*new json::Array(v->toArray())); else if (v->isObject()) w->delegate(*new json::Object(v->toObject())); delete w; }
  delete v;
}
struct Op : eni::EniBase { Op(const std::string& t) : EniBase(t) {} bool parse(const json::Array&) override { return true; } eni::Gas gas() const override { return 1; } bool run(json::Array& r) override { r.push_back(Value(true)); return true; } };
static void known(int c) {
  if (c == 0) { Value v(7); }
  else if (c == 1) { json::Array a; a.push_back(Value("x")); }
  else if (c == 2) { json::Object o; o["k"] = Value("x"); o["k"] = Value("y"); }
  else if (c == 3) { Value v("x"), w(true); v = w; }
  else if (c == 4) { Op* op = new Op("[[]]"); free(op->start()); delete op; }
}
extern "C" void harness() {
  int c = sym_param("CASE", -1); size_t before = sym_heap();
  if (c < 0) plain(); else known(c);
  sym_assert(sym_heap() == before, "a destroyed value has released everything it owned"); sym_reach("released");
}

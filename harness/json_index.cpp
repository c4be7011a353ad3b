// Type tests, indexing, delegation and construction of single values.
#include "jbuild.h"
#include <stdexcept>
using jbuild::Node;
static Node* fresh(int kind) {
  switch (kind) {
    case 0: { Node* r = jbuild::mk(jref::Bool); r->b = sym_choose("b", 2); return r; }
    case 1: return jbuild::intNode(jbuild::ints[sym_choose("int", 10)]);
    case 2: return jbuild::strNode(jbuild::symString(sym_choose("len", 3)));
    case 3: { Node* r = jbuild::mk(jref::Arr); int m = sym_choose("m", 4); for (int k = 0; k < m; k++) jbuild::add(r, jbuild::intNode(jbuild::ints[k])); return r; }
    case 4: { Node* r = jbuild::mk(jref::Obj); int m = sym_choose("m", 3); for (int k = 0; k < m; k++) { std::string s = k ? std::string("q") : jbuild::symString(1); if (!k) sym_assume(s[0] != 113); jbuild::put(r, s, jbuild::intNode(jbuild::ints[k])); } return r; }
  }
  return nullptr;
}
static int thrown;   // 1 out of range, 2 logic error of another kind, 3 something else
template <class F> static const json::Value* guard(F f) {
  thrown = 0;
  try { return &f(); } catch (const std::out_of_range&) { thrown = 1; } catch (const std::logic_error&) { thrown = 2; } catch (...) { thrown = 3; }
  return nullptr;
}
extern "C" void harness() {
  int kind = sym_choose("kind", 6);
  Node* n = fresh(kind);
  json::Value* v = n ? new json::Value(jbuild::value(n)) : new json::Value();
  const json::Value& c = *v;
  int t = v->isInteger() * 2 + v->isBoolean() * 1 + v->isString() * 4 + v->isObject() * 16 + v->isArray() * 8 + v->isUndefined() * 32;
  sym_assert(t == 1 << kind, "exactly the type test of the value's kind holds");
  int op = sym_choose("op", 4);
  if (op == 0) { // index by position, twice: the answer does not depend on what was asked before
    int i; sym_bytes("i", &i, 4); sym_assume((i > -3 && i < 6) || i == 0x7fffffff || i == (int)0x80000000);
    for (int k = 0; k < 2; k++) {
      const json::Value* r = guard([&]() -> const json::Value& { return c[i]; });
      if (kind != 3) sym_assert(r && thrown == 0 && r->isUndefined(), "indexing a value of the wrong kind yields an undefined value");
      else if (i >= 0 && i < n->cnt) { sym_assert(r && !jref::differ(*r, n->kid[i]), "indexing an array yields its element"); sym_reach("element"); }
      else { sym_assert(thrown == 1, "an index outside the array raises an out-of-range error"); sym_reach("outside"); }
    }
  } else if (op == 1) { // index by key
    std::string key = jbuild::symString(sym_choose("klen", 3));
    for (int k = 0; k < 2; k++) {
      const json::Value* r = guard([&]() -> const json::Value& { return c[key]; });
      if (kind != 4) { sym_assert(r && thrown == 0 && r->isUndefined(), "indexing a value of the wrong kind yields an undefined value"); continue; }
      int at = -1; for (int q = 0; q < n->cnt; q++) if (key.size() == 1 && (unsigned char)key[0] == *n->key[q]) at = q;
      if (at >= 0) { sym_assert(r && !jref::differ(*r, n->kid[at]), "indexing an object yields the value of the key"); sym_reach("value"); }
      else { sym_assert(thrown == 1, "a missing key raises an out-of-range error"); sym_reach("missing"); }
    }
  } else if (op == 2) { // delegation
    int which = sym_choose("which", 3);
    eni::s256* i = new eni::s256(42); json::Object* o = new json::Object(); (*o)["k"] = json::Value(1); json::Array* a = new json::Array(); a->push_back(json::Value("s"));
    thrown = 0;
    json::Value* r = nullptr;
    try { r = which == 0 ? &v->delegate(*i) : which == 1 ? &v->delegate(*o) : &v->delegate(*a); } catch (const std::out_of_range&) { thrown = 1; } catch (const std::logic_error&) { thrown = 2; } catch (...) { thrown = 3; }
    if (kind == 5) {
      sym_assert(!thrown && r == v, "an undefined value takes the delegated content");
      if (which == 0) sym_assert(v->isInteger() && v->toInteger() == 42 && &v->toInteger() == i, "the delegated integer");
      if (which == 1) sym_assert(v->isObject() && &v->toObject() == o && v->toObject().size() == 1, "the delegated object");
      if (which == 2) sym_assert(v->isArray() && &v->toArray() == a && v->toArray().size() == 1, "the delegated array");
      json::Value copy(*v); if (which == 1) copy.asObject()["z"] = json::Value(2); if (which == 2) copy.asArray().clear(); if (which == 0) copy.asInteger() = 1;
      sym_assert(which == 0 ? *i == 42 : which == 1 ? o->size() == 1 : a->size() == 1, "a copy does not share the delegated content");
      thrown = 0; try { v->delegate(*new json::Array()); } catch (const std::logic_error&) { thrown = 2; }
      sym_assert(thrown == 2, "delegating twice raises a logic error");
      sym_reach("delegated");
    } else { sym_assert(thrown == 2, "delegating to a defined value raises a logic error"); sym_assert(!jref::differ(c, n), "and leaves it unchanged"); sym_reach("refused"); }
  } else { // the remaining constructors
    int x; sym_bytes("x", &x, 4); bool b = sym_choose("bb", 2);
    json::Value vi(x), vb(b), vs("a\"b"), vt(std::string("a\0b", 3)), ve(eni::s256(-7)), vd;
    sym_assert(vi.isInteger() && vi.toInteger() == x, "an integer value holds the integer");
    sym_assert(vb.isBoolean() && vb.toBoolean() == b, "a boolean value holds the boolean");
    sym_assert(vs.isString() && vs.toString() == "a\"b", "a string value holds the characters");
    sym_assert(vt.isString() && vt.toString().size() == 3 && vt.toString()[1] == 0, "a string value keeps zero bytes");
    sym_assert(ve.isInteger() && ve.toInteger() == -7, "an integer value holds the big integer");
    sym_assert(vd.isUndefined(), "a default value is undefined");
    json::Value m(std::move(vt)); sym_assert(m.isString() && m.toString().size() == 3 && vt.isUndefined(), "moving leaves the source undefined");
    json::Notation na, nb(json::STRING), nc(nb), nd(std::move(nc)); sym_assert(na.isUndefined() && nb.isString() && nd.isString(), "notations are typed as built");
    na = nb; sym_assert(na.isString() && nb.isString(), "assigning a notation copies the type");
  }
  delete v;
  sym_reach("done");
}

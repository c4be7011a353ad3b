// Histories of copies, moves, assignments, changes and destructions of values against reference trees.
#include "jbuild.h"
#include <stdexcept>
using jbuild::Node;
static const int SL = 3;
static json::Value* v[SL];
static Node* n[SL];          // null: undefined
static Node* fresh(int kind) {
  switch (kind) {
    case 0: { Node* r = jbuild::mk(jref::Bool); r->b = sym_choose(jbuild::name("b"), 2); return r; }
    case 1: return jbuild::intNode("-123456789012345678901234567890");
    case 2: return jbuild::strNode(jbuild::symString(1));
    case 3: { Node* r = jbuild::mk(jref::Arr); jbuild::add(r, jbuild::intNode("7")); jbuild::add(r, jbuild::strNode(jbuild::symString(1))); return r; }
    case 4: { Node* r = jbuild::mk(jref::Obj); jbuild::put(r, "k", jbuild::strNode("a string that is stored on the heap")); jbuild::put(r, "m", jbuild::intNode("-1")); return r; }
    case 5: { Node* r = jbuild::mk(jref::Arr); Node* o = jbuild::mk(jref::Obj); Node* a = jbuild::mk(jref::Arr); jbuild::add(a, jbuild::strNode(jbuild::symString(1))); jbuild::put(o, "k", a); jbuild::add(r, o); return r; }
    case 6: return jbuild::mk(jref::Arr);
    default: return jbuild::mk(jref::Obj);
  }
}
static void types(const json::Value& x, const Node* r) {
  int k = x.isInteger() + x.isBoolean() + x.isString() + x.isObject() + x.isArray() + x.isUndefined();
  sym_assert(k == 1, "exactly one type test holds");
  bool t = !r ? x.isUndefined() && x.type() == json::UNDEF : r->ty == jref::Int ? x.isInteger() && x.type() == json::INT : r->ty == jref::Bool ? x.isBoolean() && x.type() == json::BOOL : r->ty == jref::Str ? x.isString() && x.type() == json::STRING : r->ty == jref::Arr ? x.isArray() && x.type() == json::ARRAY : x.isObject() && x.type() == json::OBJECT;
  sym_assert(t, "the type test matches how the value was made");
}
static void checkAll(const char* what) {
  for (int k = 0; k < SL; k++) {
    if (!v[k]) continue;
    types(*v[k], n[k]);
    if (n[k]) sym_assert(!jref::differ(*v[k], n[k]), what);
  }
}
static int pick(const char* w, bool live) { int k = sym_choose(jbuild::name(w), SL); if (live) sym_assume(v[k] != nullptr); return k; }
static void change(json::Value& x, Node* r) {
  if (!r) return;
  switch (r->ty) {
    case jref::Int: x.asInteger() = 5; r->neg = false; r->s = (unsigned char*)"5"; r->n = 1; break;
    case jref::Bool: break;
    case jref::Str: { x.asString() += "tail that moves the string to the heap"; *r = *jbuild::strNode(std::string((const char*)r->s, r->n) + "tail that moves the string to the heap"); break; }
    case jref::Arr:
      switch (sym_choose(jbuild::name("ch"), 3)) {
        case 0: x.asArray().push_back(json::Value(9)); jbuild::add(r, jbuild::intNode("9")); break;
        case 1: x.asArray().clear(); r->cnt = 0; break;
        default: if (r->cnt) { change(x.asArray().at(0), r->kid[0]); } else { x.asArray().push_back(json::Value(true)); Node* b = jbuild::mk(jref::Bool); b->b = true; jbuild::add(r, b); }
      } break;
    case jref::Obj:
      switch (sym_choose(jbuild::name("ch"), 3)) {
        case 0: x.asObject()["new"] = json::Value("x"); if (r->cnt && r->keyn[r->cnt - 1] == 3) r->cnt--; jbuild::put(r, "new", jbuild::strNode("x")); break;
        case 1: { if (!r->cnt) break; std::string k((const char*)r->key[0], r->keyn[0]); sym_assert(x.asObject().erase(k) == 1, "erasing a present key"); for (int q = 1; q < r->cnt; q++) { r->key[q - 1] = r->key[q]; r->keyn[q - 1] = r->keyn[q]; r->kid[q - 1] = r->kid[q]; } r->cnt--; break; }
        default: if (r->cnt) { std::string k((const char*)r->key[0], r->keyn[0]); change(x.asObject()[k], r->kid[0]); }
      }
  }
}
extern "C" void harness() {
  int K = sym_param("K", 3), kinds = sym_param("KIND", -1);
  auto kind = [&]() { return kinds >= 0 ? kinds : (int)sym_choose(jbuild::name("kind"), 8); };
  { n[0] = fresh(kind()); v[0] = new json::Value(jbuild::value(n[0])); }
  { n[1] = fresh((kinds >= 0 ? kinds + 3 : 2) % 8); v[1] = new json::Value(jbuild::value(n[1])); }
  v[2] = new json::Value();
  checkAll("a value has the content it was made with");
  for (int k = 0; k < K; k++) {
    switch (sym_choose(jbuild::name("op"), 7)) {
      case 0: { int i = pick("i", false), j = pick("j", true); sym_assume(i != j); delete v[i]; v[i] = new json::Value((const json::Value&)*v[j]); n[i] = n[j] ? jbuild::copy(n[j]) : nullptr; checkAll("a copied value equals its source and others are unchanged"); sym_reach("copied"); break; }
      case 1: { int i = pick("i", true), j = pick("j", true); *v[i] = *v[j]; n[i] = n[j] ? jbuild::copy(n[j]) : nullptr; checkAll("an assigned value equals its source and others are unchanged"); sym_reach("assigned"); break; }
      case 2: { int i = pick("i", false), j = pick("j", true); sym_assume(i != j); delete v[i]; v[i] = new json::Value(std::move(*v[j])); n[i] = n[j]; n[j] = nullptr; checkAll("moving transfers the content and leaves the source undefined"); sym_reach("moved"); break; }
      case 3: { int i = pick("i", true); change(*v[i], n[i]); checkAll("changing a value changes no other value"); sym_reach("changed"); break; }
      case 4: { int i = pick("i", true); delete v[i]; v[i] = nullptr; n[i] = nullptr; checkAll("destroying a value changes no other value"); break; }
      case 5: { int i = pick("i", true), j = pick("j", true); sym_assume(n[j] && (n[j]->ty == jref::Arr || n[j]->ty == jref::Obj) && n[j]->cnt);
        const Node* src = n[j]->kid[0]; const json::Value& e = n[j]->ty == jref::Arr ? (*v[j])[0] : (*v[j])[std::string((const char*)n[j]->key[0], n[j]->keyn[0])];
        *v[i] = e; n[i] = jbuild::copy(src); checkAll("assigning an element of a value gives an equal value"); break; }
      default: { int i = pick("i", true), j = pick("j", true); sym_assume(n[i] && n[i]->ty == jref::Arr); json::Value& s = *v[j]; sym_assume(n[j]); Node* c = jbuild::copy(n[j]); v[i]->asArray().push_back(s); jbuild::add(n[i], c); checkAll("an array holds a copy of the pushed value"); break; }
    }
  }
  for (int k = 0; k < SL; k++) if (v[k]) { delete v[k]; v[k] = nullptr; checkAll("destroying a value changes no other value"); }
  sym_reach("done");
}

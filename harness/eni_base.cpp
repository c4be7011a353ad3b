// Any operation built on the base class: its steps answer symbolically, its entry points are called in any order.
#include "jbuild.h"
#include <eni.h>
using jbuild::Node;
static int parses, gases, runs, maxRet;
static bool okParse, okRun, isArr, afterReject;
static uint64_t gasVal;
static Node* rets;
static Node* args;
struct Op : eni::EniBase {
  Op(const std::string& s) : EniBase(s) {}
  ~Op() {}
private:
  bool parse(const json::Array& a) override {
    sym_assert(isArr, "the check sees arrays only"); sym_assert(++parses == 1, "the check runs at most once");
    sym_assert(!gases && !runs, "the check runs before the gas and run steps");
    sym_assert((int)a.size() == args->cnt, "the check sees the arguments");
    int bad = 0; for (int k = 0; k < args->cnt; k++) bad |= jref::differ(a[k], args->kid[k]);
    sym_assert(!bad, "the check sees the arguments");
    return okParse;
  }
  eni::Gas gas() const override { sym_assert(parses == 1 && okParse, "the gas step runs after an accepting check only"); gases++; return gasVal; }
  bool run(json::Array& out) override {
    sym_assert(parses == 1 && okParse, "the run step runs after an accepting check only"); runs++;
    sym_assert(out.empty(), "the run step starts with no result");
    for (int k = 0; k < rets->cnt; k++) { if (rets->kid[k]->ty == jref::Str) out.emplace_back(std::string((char*)rets->kid[k]->s, rets->kid[k]->n)); else out.push_back(jbuild::value(rets->kid[k])); }
    return okRun;
  }
};
ENI_C_INTERFACE(probe, Op)
static void checkGas(uint64_t g) { sym_assert(g == (isArr && okParse ? gasVal : 1500), "the gas is the operation's own when accepted and 1500 otherwise"); }
static void checkRun(char* r) {
  if (!isArr || !okParse || !okRun) { sym_assert(!r, "a rejected or failed run gives a null result"); sym_reach("null"); return; }
  sym_assert(r != nullptr, "an accepted run gives a result");
  size_t len = strlen(r);
  jref::Reader rd{(const unsigned char*)r, (int)len, 0, true};
  Node* got = rd.value(0);
  sym_assert(rd.ok && rd.i == (int)len, "the result is one JSON text");
  sym_assert(got->ty == jref::Arr && got->cnt == rets->cnt, "the result is an array of as many values as returned");
  json::Value want = jbuild::value(rets);
  sym_assert(!jref::differ(want, got), "the result holds exactly the values returned, in order");
  sym_observe_bytes("result", r, len);
  free(r);
  sym_reach("result");
}
extern "C" void harness() {
  static const char* const texts[] = {"[]", "[1,\"a\",[true]]", "{}", "\"x\"", "7", "true", "{\"a\":[]}", " [ \"q\" ] tail"};
  int S = sym_param("S", 0);
  const char* text = texts[sym_choose("text", 8)];
  args = jref::read((const unsigned char*)text, strlen(text));
  isArr = args->ty == jref::Arr;
  okParse = sym_choose("okParse", 2); okRun = sym_choose("okRun", 2);
  sym_bytes("gas", &gasVal, 8);
  rets = jbuild::mk(jref::Arr);
  if (S == 0) { int m = sym_choose("m", 3); for (int k = 0; k < m; k++) jbuild::add(rets, jbuild::tree(0, 0, 1, 3)); }
  else if (S == 1) jbuild::add(rets, jbuild::tree(1, 2, 1, 2));
  else if (S == 2) { int m = sym_param("M", 40); for (int k = 0; k < m; k++) jbuild::add(rets, k % 7 == 3 ? jbuild::strNode(std::string(k * 9, 'x')) : jbuild::intNode(jbuild::ints[k % 10])); jbuild::add(rets, jbuild::strNode(jbuild::symString(2))); }
  else { std::string big(sym_param("M", 70000), 'y'); big += jbuild::symString(1); jbuild::add(rets, jbuild::strNode(big)); }
  if (sym_choose("c", 2)) { // the C entry points, each with its own instance
    char* t = strdup(text);
    for (int k = 0; k < 2; k++) {
      parses = gases = runs = 0;
      if (sym_choose(jbuild::name("call"), 2)) { uint64_t* g = probe_gas(t); sym_assert(g != nullptr, "the gas entry point answers"); checkGas(*g); free(g); }
      else checkRun(probe_run(t));
      sym_assert(!strcmp(t, text), "the argument text is left alone");
    }
  } else {
    std::string* s = new std::string(text);
    Op* op = new Op(*s); delete s;
    sym_assert(!parses && !gases && !runs, "no step runs before it is asked for");
    char* last = nullptr; int n = S == 0 ? 3 : 2;
    for (int k = 0; k < n; k++) {
      if (sym_choose(jbuild::name("call"), 2)) { checkGas(op->getGas()); sym_reach("gas"); }
      else { char* r = op->start(); if (k == n - 1) last = r; else checkRun(r); if (k == n - 1) { delete op; op = nullptr; checkRun(last); } }
    }
    if (!isArr || !okParse) sym_assert(!gases && !runs, "no step runs on rejected arguments");
    delete op;
  }
  sym_reach("done");
}

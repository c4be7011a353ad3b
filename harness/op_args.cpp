// Arguments of every shape: an operation that is not given what it expects answers gas 1500 and a null result.
#include "ops.h"
#ifndef OP_NEED
#error
#endif
// OP_GAS, OP_RUN: entry points; OP_NEED: kinds of the leading arguments, 's' string, 'i' integer; OP_KINDS as needed
static const char* const vals[] = {"\"00\"", "5", "true", "[\"00\"]", "{\"a\":\"00\"}", "\"\"", "-1", "[]", "{}", "false"};
static const char kindOf[] = {'s', 'i', 'b', 'a', 'o', 's', 'i', 'a', 'o', 'b'};
#ifndef OP_FIRST
#define OP_FIRST ""
#endif
extern "C" void harness() {
  std::string t; bool supplied = true;
  int shape = sym_choose("shape", 7);
  const char* need = OP_NEED; int nn = strlen(need);
  if (shape == 0) {                           // arrays of every kind of elements, 0 .. W of them
    int n = sym_choose("n", sym_param("W", 3) + 1); t = "[";
    for (int k = 0; k < n; k++) { int v = sym_choose(jbuild::name("v"), sym_param("V", 10)); if (k) t += ","; t += vals[v]; if (k < nn && kindOf[v] != need[k]) supplied = false; }
    if (n < nn) supplied = false; t += "]";
  } else if (shape == 1) {                    // the right arguments but one
    int bad = sym_choose("bad", nn); t = "[";
    for (int k = 0; k < nn; k++) { if (k) t += ","; int v = need[k] == 's' ? 0 : 1; if (k == bad) { v = sym_choose("v", 10); if (kindOf[v] != need[k]) supplied = false; } if (k == 0 && k != bad && *OP_FIRST) t += OP_FIRST; else t += vals[v]; }
    t += "]"; sym_assume(!supplied);
  } else if (shape == 2) {                    // too few
    int n = sym_choose("n", nn); t = "["; for (int k = 0; k < n; k++) { if (k) t += ","; t += k == 0 && *OP_FIRST ? OP_FIRST : need[k] == 's' ? vals[0] : vals[1]; } t += "]"; supplied = false;
  } else if (shape == 3) { t = vals[sym_choose("top", 10)]; if (t[0] == '[') { sym_assume(nn > 1 || t == "[]"); } supplied = false; }
  else if (shape == 4) { t = "{\"0\":\"00\",\"1\":\"00\"}"; supplied = false; }
  else if (shape == 5) { // one argument of another kind with symbolic content
    char b[2]; sym_bytes("d", b, 2); sym_assume((unsigned char)(b[0] - '1') < 9 && (unsigned char)(b[1] - '0') < 10);
    t = std::string("[") + b[0] + b[1] + ",\"00\",0,2,0]"; supplied = need[0] == 'i'; sym_assume(!supplied); }
  else { // a nested array in place of the list
    t = "[["; for (int k = 0; k < nn; k++) { if (k) t += ","; t += need[k] == 's' ? vals[0] : vals[1]; } t += "]]"; supplied = false; }
#ifdef OP_KNOWN // arrays of ill-typed elements are known findings of this operation, decided by op_refuse.cpp
  sym_assume(supplied || t[0] != '[');
#endif
  uint64_t g = ops::gas(OP_GAS, t);
  char* r = ops::run(OP_RUN, t);
  sym_observe("gas", g); sym_observe("null", !r);
  if (!supplied) { sym_assert(g == 1500, "the gas of refused arguments is 1500"); sym_assert(!r, "refused arguments give a null result"); sym_reach("refused"); }
  else sym_reach("supplied");
  free(r);
}

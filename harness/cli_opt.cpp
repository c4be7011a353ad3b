// The command-line parser on symbolic argument vectors.
#include <string>
#include <stdlib.h>
#include <string.h>
#include "sym.h"
#include "tools/eni_cli/optParser.h"
static char* nm(const char* p, int k) { char* b = (char*)malloc(8); b[0] = p[0]; b[1] = '0' + k / 10; b[2] = '0' + k % 10; b[3] = 0; return b; }
extern "C" void harness() {
  int A = sym_param("A", 4), L = sym_param("L", 2), LONG = sym_param("LONG", 0);
  int argc = sym_choose("argc", A + 1) + 1; if (sym_param("EXACT", 0)) sym_assume(argc == A + 1);
  char** argv = (char**)malloc((argc + 1) * sizeof(char*)); int len[16];
  argv[0] = strdup("-x"); argv[argc] = nullptr;
  for (int k = 1; k < argc; k++) {
    int n = len[k] = sym_param("FIX", 0) ? L : sym_choose(nm("l", k), L + 1);
    int extra = LONG && k == sym_param("AT", 1) ? LONG : 0;
    argv[k] = (char*)malloc(n + extra + 1); if (n) sym_bytes(nm("a", k), argv[k], n);
    for (int j = 0; j < n; j++) sym_assume(argv[k][j] != 0);
    for (int j = 0; j < extra; j++) argv[k][n + j] = 'a' + j % 26;
    len[k] = n + extra; argv[k][len[k]] = 0;
  }
  bool end = false; int pos = 0, which[16];
  for (int k = 1; k < argc; k++) {
    bool dash = len[k] > 0 && argv[k][0] == '-';
    if (dash && !end) { if (len[k] == 2 && argv[k][1] == '-') end = true; continue; }
    which[pos++] = k;
  }
  ceni::Opt o("prog", "what it does");
  bool r = o.parse(argc, argv);
  sym_observe("ok", r);
  sym_assert(r == (pos == 3), "accepted exactly with three positional arguments");
  if (!r) { sym_reach(pos < 3 ? "few" : "many"); return; }
  const std::string* got[] = {&o.lib(), &o.op(), &o.params()};
  for (int k = 0; k < 3; k++) {
    sym_assert((int)got[k]->size() == len[which[k]], "an argument is taken whole");
    bool same = true; for (int j = 0; j < len[which[k]]; j++) same &= (*got[k])[j] == argv[which[k]][j];
    sym_assert(same, "an argument is taken byte for byte");
  }
  for (int k = 0; k <= argc; k++) if (k < argc) free(argv[k]); free(argv);
  sym_assert((int)got[0]->size() == len[which[0]], "the arguments outlive the vector"); sym_reach("three");
}

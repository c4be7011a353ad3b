// Texts with symbolic bytes for the JSON harnesses.
// In a template: \1 any byte, \2 a decimal digit, \3 a hexadecimal digit, \4 a lower-case letter; \5 c n repeats the character c (n-1)*10 times.
#pragma once
#include "sym.h"
#include <string>
#include <string.h>
#include <stdlib.h>
namespace jtext {
inline void expand(std::string& out, const char* t) {
  int ns = 0;
  std::string kinds;
  for (const char* p = t; *p; p++) {
    if (*p == 5) { char c = p[1]; int n = ((unsigned char)p[2] - 1) * 10; p += 2; for (int k = 0; k < n; k++) { out.push_back(c); kinds.push_back(0); } continue; }
    if (*p >= 1 && *p <= 4) { ns++; out.push_back('?'); kinds.push_back(*p); continue; }
    out.push_back(*p); kinds.push_back(0);
  }
  if (!ns) return;
  char* in = (char*)malloc(ns);
  sym_bytes("x", in, ns);
  int k = 0;
  for (size_t i = 0; i < out.size(); i++) {
    if (!kinds[i]) continue;
    unsigned char c = in[k++];
    if (kinds[i] == 2) sym_assume((unsigned char)(c - '0') < 10);
    if (kinds[i] == 3) sym_assume((int)((unsigned char)(c - '0') < 10) | (int)((unsigned char)((c | 32) - 'a') < 6));
    if (kinds[i] == 4) sym_assume((unsigned char)(c - 'a') < 26);
    out[i] = c;
  }
}
// n fully symbolic bytes (T < 0) or template number T; CUT=1: cut at a symbolic position
inline std::string make(const char* const* templ) {
  int T = sym_param("T", 0);
  std::string s;
  if (T < 0) {
    int n = sym_param("N", 3);
    char* in = (char*)malloc(n + 1);
    sym_bytes("x", in, n);
    s.assign(in, n);
  } else expand(s, templ[T]);
  if (sym_param("CUT", 0)) s.resize(sym_choose("cut", s.size() + 1));
  return s;
}
}

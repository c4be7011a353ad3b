// The json operation on slices of symbolic data, against a scanner of standard JSON.
#include "ops.h"
#include "jtext.h"
static const char* const templ[] = {
#include "json_templates.inc"
};
namespace {
// a scanner of standard JSON over data[b, e); the children of the top-level container are recorded
struct Kid { int s, e; std::string key; };
struct Scan {
  const std::string& d; int i, e; Kid kid[64]; int n = 0; char kind = 0; std::string str;
  int at() const { return i < e ? (unsigned char)d[i] : -1; }
  void blanks() { for (;;) { int c = at(); if (c == ' ' || c == '\n' || c == '\t' || c == '\r') i++; else return; } }
  bool string(std::string& out) {
    if (at() != '"') return false; i++;
    for (;;) {
      int c = at(); if (c < 0x20) return false;
      i++;
      if (c == '"') return true;
      if (c != '\\') { out += (char)c; continue; }
      c = at(); i++;
      switch (c) {
        case '"': case '\\': case '/': out += (char)c; break;
        case 'b': out += '\b'; break; case 'f': out += '\f'; break; case 'n': out += '\n'; break; case 'r': out += '\r'; break; case 't': out += '\t'; break;
        case 'u': { int v = 0; for (int k = 0; k < 4; k++, i++) { int h = at(), x = h | 32; bool dg = (h >= '0') & (h <= '9'), al = (x >= 'a') & (x <= 'f'); if (h < 0 || !(dg | al)) return false; int m = -(int)dg; v = v * 16 + (((h - '0') & m) | ((x - 'a' + 10) & ~m)); } out += (char)v; break; }
        default: return false;
      }
    }
  }
  bool digits() { int n = 0; while (at() >= '0' && at() <= '9') { i++; n++; } return n > 0; }
  bool word(const char* w) { for (; *w; w++, i++) if (at() != *w) return false; return true; }
  bool number() {
    if (at() == '-') i++;
    if (at() == '0') i++; else if (!digits()) return false;
    if (at() == '.') { i++; if (!digits()) return false; }
    int c = at(); if (c == 'e' || c == 'E') { i++; c = at(); if (c == '+' || c == '-') i++; if (!digits()) return false; }
    return true;
  }
  bool value(int depth) {
    int c = at();
    if (c == '"') { std::string s; if (!depth) kind = 's'; return string(depth ? s : str); }
    if (c == '[' || c == '{') {
      char close = c == '[' ? ']' : '}'; if (!depth) kind = c; i++; blanks();
      if (at() == close) { i++; return true; }
      for (;;) {
        std::string key;
        if (c == '{') { if (!string(key)) return false; blanks(); if (at() != ':') return false; i++; blanks(); }
        int s = i; if (!value(depth + 1)) return false;
        if (!depth) { kid[n].s = s; kid[n].e = i; kid[n].key = key; n++; }
        blanks(); if (at() == close) { i++; return true; }
        if (at() != ',') return false; i++; blanks();
      }
    }
    if (!depth) kind = 'p';
    return c == 't' ? word("true") : c == 'f' ? word("false") : c == 'n' ? word("null") : number();
  }
};
std::string hex8(unsigned v) { std::string r; for (int k = 28; k >= 0; k -= 4) r += "0123456789abcdef"[(v >> k) & 15]; return r; }
void refused(const std::string& t, const char* why) {
  uint64_t g = ops::gas(json_gas, t); char* r = ops::run(json_run, t);
  sym_assert(g == 1500, why); sym_assert(!r, why); sym_reach("refused"); sym_end();
}
}
extern "C" void harness() {
  int op = sym_choose("op", 5);
  static const char* const names[] = {"parseString", "parseArray", "arrayGet", "objectGet", 0};
  static const char* const odd[] = {"", "parse", "parsestring", "parseStrings", "arrayget"};
  static const char* const pre[] = {"", "[7,", "{\"q\":\"", "\\\""}; static const char* const post[] = {"", ",8]", "]}\"[", "\""};
  std::string slice = jtext::make(templ);
  int sur = sym_choose("around", sym_param("AROUND", 2)); std::string data = pre[sur] + slice + post[sur];
  int b = strlen(pre[sur]), e = b + slice.size();
  std::string name = names[op] ? names[op] : odd[sym_choose("odd", 5)];
  std::string head = "[\"" + name + "\"," + ops::quote(data) + ",";
  auto tail = [&](const std::string& arg) { return arg.empty() ? std::string("]") : "," + arg + "]"; };
  auto whole = [&](const std::string& lo, const std::string& hi, const std::string& arg) { return head + lo + "," + hi + tail(arg); };
  std::string any = op == 3 ? "\"a\"" : "0";
  auto I = [](long v) { return std::to_string(v); };
  Scan sc{data, b, e}; sc.blanks(); int vb = sc.i; bool ok = sc.value(0); int ve = sc.i; if (ok) { sc.blanks(); ok = sc.i == e; }
  // refusals of malformed slices, other kinds, missing keys and indices are known findings, see op_refuse.cpp
  if (op < 4) sym_assume(ok);
  char need = op == 0 ? 's' : op == 1 || op == 2 ? '[' : op == 3 ? '{' : '?';
  std::string arg, want; bool have = sc.kind == need;
  auto enc = [&](int k) { return hex8(sc.kid[k].s) + hex8(sc.kid[k].e); };
  if (have && op == 0) want = sc.str;
  if (have && op == 1) for (int k = 0; k < sc.n; k++) want += enc(k);
  if (op == 2) {
    int few = sc.n < 6 ? sc.n : 6; if (!few) have = false;
    else { int k = sym_choose("index", few); if (k >= few - 2) k = sc.n - few + k; if (k < 0) k = 0; arg = I(k); if (have) want = enc(k); }
  }
  if (op == 3) {
    std::string key; int k = sym_choose("key", 4), few = sc.n < 4 ? sc.n : 4;
    if (k == 0 && few) { int q = sym_choose("which", few); if (q == few - 1) q = sc.n - 1; key = sc.kid[q].key; }
    else if (k == 1) key = jbuild::symString(1);
    else if (k == 2) key = sc.n ? sc.kid[0].key + "x" : "x";
    else if (k == 3) key = "";
    arg = ops::quote(key);
    if (have) { int hit = -1; for (int q = 0; q < sc.n && (int)q < 64; q++) if (sc.kid[q].key.size() == key.size()) { bool eq = true; for (size_t j = 0; j < key.size(); j++) eq &= sc.kid[q].key[j] == key[j]; if (eq) hit = q; } if (hit < 0) have = false; else want = enc(hit); }
  }
  std::string t = whole(I(b), I(e), arg);
  if (op == 4) refused(t, "an unknown operation is refused");
  sym_assume(have);
  uint64_t g = ops::gas(json_gas, t); char* r = ops::run(json_run, t);
  sym_assert(r != nullptr, "a well-formed slice gives a result");
  sym_assert(g == 10 * want.size(), "gas is ten times the result's length");
  sym_assert(ops::is(ops::text(r), want), "the result is the decoded string or the exact offsets");
  sym_observe("gas", g); sym_observe_bytes("r", r, strlen(r));
  sym_reach(op == 0 ? "string" : op == 1 ? "array" : op == 2 ? "element" : "member");
}

// Particular argument texts that must be refused: gas 1500, a null result, nothing raised, nothing read outside.
#include "ops.h"
static const char* const reverseCases[] = {"[]", "[5]", "[true]", "[[\"a\"]]", "[{\"a\":\"b\"}]"};
static const char* const jsonCases[] = {
  "[]", "[\"parseArray\",\"[1]\",0]", "[5,\"[1]\",0,3]", "[\"parseArray\",[1],0,3]", "[\"parseArray\",\"[1]\",\"0\",3]", "[\"parseArray\",\"[1]\",0,true]", "[\"arrayGet\",\"[1]\",0,3]", "[\"objectGet\",\"{}\",0,2,0]", // arguments
  "[\"parseArray\",\"[1]\",-1,3]", "[\"parseArray\",\"[1]\",0,9]", "[\"parseString\",\"\\\"a\\\"\",9,12]", "[\"arrayGet\",\"[1]\",4294967296,4294967299,0]",                  // slices outside the data
  "[\"parseArray\",\"[1]\",0,2]", "[\"parseString\",\"\\\"ab\\\"\",0,3]", "[\"objectGet\",\"{\\\"a\\\":1}\",0,6,\"a\"]",                                                        // values cut off by the slice
  "[\"parseString\",\"[1]\",0,3]", "[\"parseArray\",\"{\\\"a\\\":1}\",0,7]", "[\"objectGet\",\"[1,2]\",0,5,\"a\"]", "[\"arrayGet\",\"7\",0,1,0]",                               // values of another kind
  "[\"arrayGet\",\"[1]\",0,3,1]", "[\"arrayGet\",\"[1]\",0,3,-1]", "[\"objectGet\",\"{\\\"a\\\":1}\",0,7,\"b\"]",                                                            // an absent element, an absent key
  "[\"parseArray\",\"\",0,0]", "[\"parseArray\",\"]\",0,1]"};                                                                                                                // no value
extern "C" void harness() {
  int c = sym_param("CASE", 0); bool js = sym_param("JSON", 0);
  std::string t = js ? jsonCases[c] : reverseCases[c];
#ifdef OP_JSON
  uint64_t g = ops::gas(json_gas, t); sym_assert(g == 1500, "refused arguments give gas 1500");
  char* r = ops::run(json_run, t); sym_assert(!r, "refused arguments give a null result");
#else
  uint64_t g = ops::gas(reverse_gas, t); sym_assert(g == 1500, "refused arguments give gas 1500");
  char* r = ops::run(reverse_run, t); sym_assert(!r, "refused arguments give a null result");
#endif
  sym_reach("refused");
}

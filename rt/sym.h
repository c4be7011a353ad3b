// Harness API. Interpreted by symex; natively (replay) provided by native.cpp.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void sym_bytes(const char* name, void* p, size_t n);        // n fresh symbolic bytes
unsigned sym_choose_impl(const char* name, unsigned n);      // symbolic choice in [0,n), explored value by value
void sym_assume_impl(bool c);
void sym_assert_impl(bool c, const char* msg);
void sym_reach(const char* label);                           // vacuity guard: must be reached
void sym_observe(const char* name, uint64_t v);              // compared with the native replay
void sym_observe_bytes(const char* name, const void* p, size_t n);
int64_t sym_param(const char* name, int64_t dflt);           // bound, set on the command line
void sym_uf(const char* name, void* out, size_t outlen, const void* in, size_t inlen); // uninterpreted function
uint64_t sym_concretize(uint64_t v);
void sym_end(void) __attribute__((noreturn));                // end the path successfully
void sym_fail_impl(const char* kind, const char* msg) __attribute__((noreturn));
int sym_is_native(void);
size_t sym_alloc_size(const void* p);                        // bytes from p to the end of its block (symbolic run only)
size_t sym_heap(void);                                       // live heap blocks (natively: counted with the address sanitizer only)
void sym_exit_hook(void (*f)(int));                          // called by exit()
void sym_trace(const char* name, uint64_t v);
}
#define sym_choose(n, k) sym_choose_impl(n, k)
#define sym_assume(c) sym_assume_impl((c) ? true : false)
#define sym_assert(c, m) sym_assert_impl((c) ? true : false, m)
#define sym_fail(m) sym_fail_impl("assert", m)
extern "C" void harness(void);

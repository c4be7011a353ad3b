// Every error identifier as an exception of every documented base type.
#include <diagnostic/Exception.h>
#include <new>
#include <string.h>
#include "sym.h"
using namespace eni;
template<DiagID ID> struct Msg;
#define M(ID, T) template<> struct Msg<ID> { static const char* text() { return T; } };
M(Unknown, "unknown") M(Unimplemented, "not implemented") M(NoMemory, "no memory") M(InvalidDelegateAssigned, "invalid delegation: value has been assigned")
M(InvalidIteratorEmpty, "invalid iterator: iterator points to nowhere") M(InvalidStringMapKey, "invalid access: key does not exist") M(InvalidVectorIndex, "invalid access: index out of bound") M(InvalidVectorSize, "invalid reserve: exceed maximum size")
static bool eq(const char* a, const char* b) { return a && !strcmp(a, b); }
template<class B> static void sliced(const B& x, const char* text, const std::logic_error*) { B y(x); sym_assert(eq(y.what(), text), "copied into a base that carries a message, the message is kept"); B z(y); z = x; sym_assert(eq(z.what(), text), "assigned to a base that carries a message, the message is kept"); }
template<class B> static void sliced(const B&, const char*, const void*) {}
template<class E, class B> static void as(const char* text) {
  int got = 0;
  try { throw E(); } catch (B& x) { got = 1; sym_assert(eq(x.what(), text), "caught by a base, the message is the listed text"); try { throw; } catch (E& y) { got = 2; sym_assert(eq(y.what(), text), "caught by its own type, the message is the listed text"); } catch (...) {} }
  catch (...) {}
  { E x; const B& b = x; sliced<B>(b, text, (const B*)0); }
  sym_assert(got == 2, "caught by its base and by its own type");
  got = 0; try { throw E(); } catch (const B& x) { got = 1; } catch (...) {} sym_assert(got == 1, "caught by a const base");
}
template<class E, class B, class Not> static void one(const char* text) {
  E a; sym_assert(eq(a.what(), text), "the message is the listed text");
  E* p = new E(a); E c; c = *p; E d(*p); delete p;
  sym_assert(eq(c.what(), text) && eq(d.what(), text) && eq(a.what(), text), "a copy has the same message");
  const B& base = d; sym_assert(eq(base.what(), text), "seen as its base it has the same message");
  const std::exception& root = d; sym_assert(eq(root.what(), text), "seen as a standard exception it has the same message");
  as<E, B>(text); as<E, std::exception>(text);
  int got = 0; try { throw d; } catch (Not&) { got = 2; } catch (B&) { got = 1; } catch (...) { got = 3; }
  sym_assert(got == 1, "not caught by an unrelated type");
  sym_reach("error");
}
template<DiagID ID> static void id(int base) {
  const char* t = Msg<ID>::text();
  switch (base) {
    case 0: one<Exception<ID>, std::exception, std::logic_error>(t); break;
    case 1: one<BadAlloc<ID>, std::bad_alloc, std::logic_error>(t); break;
    case 2: one<LogicError<ID>, std::logic_error, std::out_of_range>(t); break;
    case 3: one<LengthError<ID>, std::length_error, std::out_of_range>(t); as<LengthError<ID>, std::logic_error>(t); break;
    default: one<OutOfRange<ID>, std::out_of_range, std::length_error>(t); as<OutOfRange<ID>, std::logic_error>(t); break;
  }
}
extern "C" void harness() {
  int b = sym_choose("base", 5);
  switch (sym_choose("id", 8)) {
    case 0: id<Unknown>(b); break; case 1: id<Unimplemented>(b); break; case 2: id<NoMemory>(b); break; case 3: id<InvalidDelegateAssigned>(b); break;
    case 4: id<InvalidIteratorEmpty>(b); break; case 5: id<InvalidStringMapKey>(b); break; case 6: id<InvalidVectorIndex>(b); break; default: id<InvalidVectorSize>(b);
  }
}

// Model: lexical_cast<std::string>(x) streams x with default formatting.
#pragma once
#include "../ios"
#include <typeinfo>
namespace boost {
class bad_lexical_cast : public std::bad_cast {};
template<typename T, typename S> struct sx_lc;
template<typename S> struct sx_lc<std::string, S> { static std::string go(const S& s) { std::ostringstream o; o << s; return o.str(); } };
template<typename T, typename S> inline T lexical_cast(const S& s) { return sx_lc<T, S>::go(s); }
}

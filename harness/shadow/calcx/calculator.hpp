// The real expression parser, except that a number the program has printed itself (kept as a token
// by the shadowed string streams) is read back as it is.
#pragma once
#include <sstream>
#include <string>
#define eval evalExpression
#include_next <calculator.hpp>
#undef eval
namespace calculator {
template <typename T> inline T eval(const std::string& s)
{
  if (s.size() == 2 && s[0] == '@' && s[1] >= 'a' && s[1] - 'a' < sxio::tokenCount()) return (T) sxio::token(s[1] - 'a');
  return evalExpression<T>(s);
}
template <typename T> inline T eval(char c) { return evalExpression<T>(c); }
inline int eval(const std::string& s) { return eval<int>(s); }
inline int eval(char c) { return eval<int>(c); }
}

// Stand-in for the expression parser (C15) as used on decimal numbers the program has printed itself (C08).
#pragma once
#include <sstream>
#include <string>
#include <stdexcept>
namespace calculator {
struct error : std::runtime_error { error(const std::string& e, const std::string& m) : std::runtime_error(m) { } };
template <typename T> inline T eval(const std::string& s)
{
  if (s.size() == 2 && s[0] == '@') return (T) sxio::token(s[1] - 'a');
  T v = 0; for (char c : s) v = v * 10 + (T) (c - '0'); return v;
}
}

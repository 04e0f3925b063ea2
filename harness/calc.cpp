// C15: arithmetic expressions. The text is symbolic; the expected value comes from an
// independent evaluator over the same characters.
#include "symx.h"
#include <int128_t.hpp>
#include CALC_HEADER
#include <string>
typedef unsigned __int128 U;
typedef __int128 I;

template <class T> struct Ref // recursive descent by precedence level
{
  const char* s; int n, i = 0; bool bad = false, skip = false, div0 = false;
  static constexpr bool sgn = (T) -1 < 0;
  static constexpr int bits = sizeof(T) * 8;
  static I maxv() { return sgn ? (I) (((U) 1 << (bits - 1)) - 1) : (I) (((U) 1 << (bits & 127)) - 1); }
  static I minv() { return sgn ? -maxv() - 1 : 0; }
  I fit(I v) { if (bits < 128 && (v < minv() || v > maxv())) { skip = true; return 0; } return v; }
  I add(I a, I b) { I r; if (__builtin_add_overflow(a, b, &r)) { skip = true; return 0; } return fit(r); }
  I sub(I a, I b) { I r; if (__builtin_sub_overflow(a, b, &r)) { skip = true; return 0; } return fit(r); }
  I mul(I a, I b) { I r; if (bits < 128) return fit(a * b); if (__builtin_mul_overflow(a, b, &r)) { skip = true; return 0; } return r; }
  I power(I a, I k) { if (k < 0) { skip = true; return 0; } I r = 1; while (k > 0 && !skip) { r = mul(r, a); k--; if (k > 200) { skip = true; } } return r; }
  bool end() { return i >= n; }
  char at(int k) { return k < n ? s[k] : 0; }
  void spaces() { while (i < n && (s[i] == ' ' || (s[i] >= 9 && s[i] <= 13))) i++; }
  static int hexv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99; }
  I primary()
  {
    if (bad) return 0;
    spaces();
    if (end()) { bad = true; return 0; }
    char c = s[i];
    if (c == '0' && (at(i + 1) == 'x' || at(i + 1) == 'X') && hexv(at(i + 2)) < 16)
    { i += 2; I v = 0; while (i < n && hexv(s[i]) < 16 && !bad) { v = add(mul(v, 16), hexv(s[i])); i++; } return v; }
    if (c >= '0' && c <= '9') { I v = 0; while (i < n && s[i] >= '0' && s[i] <= '9') { v = add(mul(v, 10), (I) (int) (s[i] - '0')); i++; } return v; }
    if (c == '(') { i++; I v = level(4); spaces(); if (bad || at(i) != ')') { bad = true; return 0; } i++; return v; }
    if (c == '+') { i++; return primary(); }
    if (c == '-') { i++; I v = primary(); if (!sgn && v != 0) { skip = true; return 0; } return sub(0, v); }
    if (c == '~') { i++; I v = primary(); return sgn ? ~v : maxv() - v; }
    bad = true; return 0;
  }
  // binary operator here: precedence, 0 if none; len its length
  int oper(int& op, int& len)
  {
    spaces(); len = 1; char c = at(i); op = c;
    switch (c)
    {
    case '|': return 4; case '&': return 6;
    case '<': case '>': if (at(i + 1) != c) { bad = true; return 0; } len = 2; return 9;
    case '+': case '-': return 10; case '/': case '%': return 20;
    case '*': if (at(i + 1) == '*') { len = 2; op = '^'; return 30; } return 20;
    case '^': return 30; case 'e': case 'E': op = 'e'; return 40;
    }
    return 0;
  }
  I apply(int op, I a, I b)
  {
    if (skip || bad || div0) return 0;
    switch (op)
    {
    case '|': return a | b; case '&': return a & b;
    case '<': case '>': if (b < 0 || b >= bits || a < 0) { skip = true; return 0; } 
      if (op == '>') return a >> (int) b;
      return mul(a, b >= 126 ? (I) 0 + (skip = true) : (I) 1 << (int) b);
    case '+': return add(a, b); case '-': return sub(a, b); case '*': return mul(a, b);
    case '/': if (b == 0) { div0 = true; return 0; } if (b == -1) return sub(0, a); return a / b;
    case '%': if (b == 0) { div0 = true; return 0; } if (b == -1) { if (sgn && a == minv()) skip = true; return 0; } return a % b;
    case '^': return power(a, b);
    case 'e': return mul(a, power(10, b));
    }
    return 0;
  }
  static int next(int p) { switch (p) { case 4: return 6; case 6: return 9; case 9: return 10; case 10: return 20; case 20: return 30; case 30: return 40; } return 99; }
  I level(int p)
  {
    if (bad) return 0;
    I v = p == 40 ? primary() : level(next(p));
    while (!bad)
    {
      int op, len, q = oper(op, len);
      if (bad || q != p) break;
      i += len;
      I r = p >= 30 ? level(p) : level(next(p)); // ** and e associate to the right
      v = apply(op, v, r);
    }
    return v;
  }
  I run() { I v = level(4); if (!bad) { spaces(); if (i < n) bad = true; } return v; }
};

template <class T> static void test(const char* s, int n)
{
  Ref<T> ref{ s, n };
  I want = ref.run();
  if (!ref.bad && ref.skip) { sx_cover("unrepresentable"); sx_reject(); return; }
  // the parts evaluated before a malformed one may be unrepresentable, too
  if (ref.skip) sx_reject();
  bool err = ref.bad || ref.div0;
  bool thrown = false; T v = 0;
  try { v = calculator::eval<T>(std::string(s, n)); } catch (const calculator::error&) { thrown = true; }
  sx_observe("thrown", thrown); sx_observe128("v", (U) v);
  if (err) { sx_assert(thrown, "malformed expression or division by zero is rejected"); sx_cover("rejected"); }
  else { sx_assert(!thrown, "valid expression is accepted"); sx_assert((I) v == want, "value of the expression"); sx_cover("value"); }
}

// templates: # digit, ? one-character operator, $ power operator, ! any byte 1..127, @ character of the expression alphabet
static const char* tmpl[] = {
  /*0*/ "!", "!!", "@@", "#!#", "#?#", "#$#", "#?#?#", "#$#$2", "2$#$#", "##?##",
  /*10*/ "(#?#)?#", "#?(#?#)", "-#?#", "#?-#", "~#?#", "#?~#?#", "+#?-+#", "#<<#?#", "#?#<<#", "#>>#?#",
  /*20*/ "#?#>>#", "##**#", "2**#*#", "#?#**2", "#**2?#", "3*#**#", "-#**#", "0x@@", "0X##a!", "0x##?##",
  /*30*/ "#e#?#", "#?#e#", "#e#e0", "#E#**2", " # ? # ", "\t#\n?\v#\r\f", "((#?#)?#)", "(#?#", "#?#)", "()",
  /*40*/ "(#)(#)", "# #", "#?", "?#", "#??#", "#<#", "#<<<#", "#/(#-#)", "#%(#-#)", "#/-#",
  /*50*/ "-#/#", "-#%#", "#%-#", "~-#", "--#", "-~#?-#", "#-#-#-#", "#/#/#", "##%##*#", "#*#%#/#",
  /*60*/ "#|#&#", "#&#|#", "#<<#>>#", "#+#<<#", "#<<#+#", "1e##", "##e1#", "2^##", "2**1##", "99999999999999999*#",
  /*70*/ "-(#?#)?#", "#-(#*(#+#))", "1e1#+##", "#/#e#", "0##", "00x#", "0x", "0xg", "x#", "#x#",
  /*80*/ "21474836##", "-21474836##", "92233720368547758##", "-92233720368547758##", "184467440737095516##", "1701411834604692317316873037158841057##",
  /*86*/ "-1701411834604692317316873037158841057##", "0x7fffffff@", "0x7fffffffffffffe#", "1e#*1e1#", "1<<##", "(((((((#)))))))", "(((#)))))", "(((((#))))", "1+", "*", "1**", "(", ")", "1e", "", " " };
static const char ops[] = "|&+-/%*";
static const char pows[] = "^eE";
static const char alpha[] = "019aEe x()~+-*/%^<>|&";

extern "C" void SX_ENTRY()
{
  const char* t = tmpl[sx_param(1)];
  char s[64]; int n = 0;
  for (; t[n]; n++)
    switch (t[n])
    {
    case '#': s[n] = (char) sx_u64("digit", '0', '9'); break;
    case '?': s[n] = ops[sx_concretize(sx_u64("op", 0, sizeof(ops) - 2))]; break;
    case '$': s[n] = pows[sx_concretize(sx_u64("pow", 0, sizeof(pows) - 2))]; break;
    case '!': s[n] = (char) sx_u64("byte", 1, 127); break;
    case '@': s[n] = alpha[sx_concretize(sx_u64("sym", 0, sizeof(alpha) - 2))]; break;
    default: s[n] = t[n];
    }
  switch (sx_param(0))
  {
  case 0: test<int64_t>(s, n); break;
  case 1: test<__int128>(s, n); break;
  case 2: test<uint64_t>(s, n); break;
  case 3: test<int>(s, n); break;
  }
}

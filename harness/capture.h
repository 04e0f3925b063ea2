// Captures what is written to std::ostream objects, without the I/O library: the
// functions every formatted output ends in are given capturing definitions here.
// cap::stream() is a stand-in stream object (only its width/fill/state fields are ever read).
#pragma once
#include <ostream>
#include <string>
#include <string.h>
namespace cap {
static char buf[4096];
static unsigned len;
#ifdef CAP_CONSOLE // natively, streams other than the console keep their buffers
static std::ostream* cur;
static void to(std::ostream& os) { cur = &os; }
static void to(std::ostream* os) { cur = os; }
#define CAP_TO cap::to(os);
#else
#define CAP_TO
#endif
static void add(const char* s, unsigned n) {
#ifdef CAP_CONSOLE
  if (cur && cur != &std::cout && cur != &std::cerr) { cur->rdbuf()->sputn(s, n); return; }
#endif
  for (unsigned i = 0; i < n && len < sizeof(buf); i++) buf[len++] = s[i]; }
static void num(bool neg, unsigned long long v)
{
  char t[24]; int k = 0;
  do { t[k++] = '0' + (char) (v % 10); v /= 10; } while (v);
  if (neg) add("-", 1);
  while (k) add(&t[--k], 1);
}
alignas(16) static char obj[1024];
static long vt[8];
static std::ostream& stream()
{
  vt[0] = 64; // offset of the virtual base, at vtable[-3]
  long p = (long) &vt[3];
  memcpy(obj, &p, sizeof p);
  return *(std::ostream*) (void*) obj;
}
}
// the library entry points, defined under their linker names
#define CAP_FN(name, args, body) std::ostream& name args asm(#name); __attribute__((used)) std::ostream& name args { CAP_TO body }
CAP_FN(_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l, (std::ostream& os, const char* s, long n), cap::add(s, (unsigned) n); return os;)
CAP_FN(_ZNSo3putEc, (std::ostream* os, char c), cap::add(&c, 1); return *os;)
CAP_FN(_ZNSo5writeEPKcl, (std::ostream* os, const char* s, long n), cap::add(s, (unsigned) n); return *os;)
CAP_FN(_ZNSo9_M_insertIlEERSoT_, (std::ostream* os, long v), cap::num(v < 0, v < 0 ? 0ull - (unsigned long long) v : v); return *os;)
CAP_FN(_ZNSo9_M_insertImEERSoT_, (std::ostream* os, unsigned long v), cap::num(false, v); return *os;)
CAP_FN(_ZNSo9_M_insertIxEERSoT_, (std::ostream* os, long long v), cap::num(v < 0, v < 0 ? 0ull - (unsigned long long) v : v); return *os;)
CAP_FN(_ZNSo9_M_insertIyEERSoT_, (std::ostream* os, unsigned long long v), cap::num(false, v); return *os;)
CAP_FN(_ZNSolsEi, (std::ostream* os, int v), cap::num(v < 0, v < 0 ? 0ull - (unsigned long long) (long long) v : v); return *os;)
CAP_FN(_ZNSo5flushEv, (std::ostream* os), return *os;)
CAP_FN(_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_, (std::ostream& os), cap::add("\n", 1); return os;)
CAP_FN(_ZSt5flushIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_, (std::ostream& os), return os;)

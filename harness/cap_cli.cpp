// Recorder for everything the program writes to its streams.
#ifdef SX_NATIVE
#define CAP_CONSOLE
#include <iostream>
#endif
#include "capture.h"
namespace cap { const char* text() { return buf; } unsigned length() { return len; } }
CAP_FN(_ZNSo9_M_insertIdEERSoT_, (std::ostream& os, double), cap::add("#", 1); return os;)
CAP_FN(_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc, (std::ostream& os, const char* s), cap::add(s, (unsigned) strlen(s)); return os;)
CAP_FN(_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE, (std::ostream& os, const std::string& s), cap::add(s.data(), (unsigned) s.size()); return os;)

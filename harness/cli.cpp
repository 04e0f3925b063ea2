// C16: the program from its argument list on. Arguments hold symbolic characters; the real
// main(), parseOptions(), settings and expression parser run, the computations are recorders.
#include "symx.h"
#include <string.h>
namespace cap { const char* text(); unsigned length(); }
#include <primesieve.hpp>
#include <primesum-internal.hpp>
#include <primesum.hpp>
#include <S1.hpp>
#include <S2.hpp>
#include <int256_t.hpp>
#include <string>
typedef unsigned __int128 U;
typedef __int128 I;
int primesum_main(int, char**); // main() of src/app/main.cpp
struct Exit { int code; };
[[noreturn]] void sx_exit(int) asm("exit");
#ifdef SX_NATIVE // exit() may not throw in natively compiled callers
#include <setjmp.h>
static jmp_buf exitPoint; static int exitCode;
[[noreturn]] void sx_exit(int code) { exitCode = code; longjmp(exitPoint, 1); }
static int program(int argc, char** argv) { if (setjmp(exitPoint)) return exitCode; return primesum_main(argc, argv); }
#else
[[noreturn]] void sx_exit(int code) { throw Exit{code}; }
static int program(int argc, char** argv) { try { return primesum_main(argc, argv); } catch (Exit& e) { return e.code; } }
#endif
extern "C" long sx_clock() asm("_ZNSt6chrono3_V212steady_clock3nowEv");
extern "C" long sx_clock() { return 1000; }
namespace sxt { uint64_t start, stop, token; int threads, calls; }
namespace sxo { int max_threads = 1; }
namespace cli {
enum Fn { NONE, DR, LMO_P1, LMO1, LMO2, LMO3, LMO4, LMO5, FP2, FS1, TRIVIAL, EASY, HARD };
static int fn, calls, threads, tests, testResult, narrow; static I x; static int64_t y, z, c; static bool hasY, hasZ, hasC;
static primesum::int256_t call(int f, I a, int t) { fn = f; calls++; x = a; threads = t; return primesum::int256_t(7000 + f); }
}
namespace primesum {
int256_t pi_deleglise_rivat_parallel1(int128_t x, int t) { return cli::call(cli::DR, x, t); }
int256_t pi_lmo_parallel1(int128_t x, int t) { return cli::call(cli::LMO_P1, x, t); }
int256_t pi_lmo1(int128_t x) { return cli::call(cli::LMO1, x, 0); }
decltype(pi_lmo2(int64_t(0))) pi_lmo2(int64_t x) { cli::call(cli::LMO2, x, 0); return 7000 + cli::LMO2; }
decltype(pi_lmo3(int64_t(0))) pi_lmo3(int64_t x) { cli::call(cli::LMO3, x, 0); return 7000 + cli::LMO3; }
decltype(pi_lmo4(int64_t(0))) pi_lmo4(int64_t x) { cli::call(cli::LMO4, x, 0); return 7000 + cli::LMO4; }
decltype(pi_lmo5(int64_t(0))) pi_lmo5(int64_t x) { cli::call(cli::LMO5, x, 0); return 7000 + cli::LMO5; }
static int256_t part(int f, I x, int64_t y, int64_t z, int64_t c, int t, bool hz, bool hc, bool narrow = false) { cli::y = y; cli::z = z; cli::c = c; cli::hasY = true; cli::hasZ = hz; cli::hasC = hc; cli::narrow = narrow; return cli::call(f, x, t); }
int256_t P2(int128_t x, int64_t y, int t) { return part(cli::FP2, x, y, 0, 0, t, false, false); }
int256_t S1(int128_t x, int64_t y, int64_t c, int t) { return part(cli::FS1, x, y, 0, c, t, false, true); }
int256_t S2_trivial(int128_t x, int64_t y, int64_t z, int64_t c, int t) { return part(cli::TRIVIAL, x, y, z, c, t, true, true); }
int256_t S2_easy(int128_t x, int64_t y, int64_t z, int64_t c, int t) { return part(cli::EASY, x, y, z, c, t, true, true); }
int256_t S2_hard(int128_t x, int64_t y, int64_t z, int64_t c, int t) { return part(cli::HARD, x, y, z, c, t, true, true); }
int64_t pi_legendre(int64_t, int) { return 0; }
int64_t phi(int64_t, int64_t, int) { return 0; }
bool test() { cli::tests++; return cli::testResult; }
}
#include <print.hpp>
using namespace primesum;
namespace ref {
enum Kind { OPT, HELP, VERSION, TEST, TIME, STATUS, THREADS, ALPHA, NUMBER };
struct Name { const char* s; int kind, fn; };
static const Name names[] = {
  { "-a", ALPHA, 0 }, { "--alpha", ALPHA, 0 }, { "-d", OPT, cli::DR }, { "--deleglise_rivat", OPT, cli::DR }, { "--deleglise_rivat_parallel1", OPT, cli::DR }, { "-h", HELP, 0 }, { "--help", HELP, 0 },
  { "-l", OPT, cli::LMO_P1 }, { "--lmo", OPT, cli::LMO_P1 }, { "--lmo1", OPT, cli::LMO1 }, { "--lmo2", OPT, cli::LMO2 }, { "--lmo3", OPT, cli::LMO3 }, { "--lmo4", OPT, cli::LMO4 }, { "--lmo5", OPT, cli::LMO5 },
  { "--lmo_parallel1", OPT, cli::LMO_P1 }, { "--number", NUMBER, 0 }, { "--P2", OPT, cli::FP2 }, { "--pi", OPT, cli::DR }, { "--S1", OPT, cli::FS1 }, { "--S2_easy", OPT, cli::EASY }, { "--S2_hard", OPT, cli::HARD },
  { "--S2_trivial", OPT, cli::TRIVIAL }, { "-s", STATUS, 0 }, { "--status", STATUS, 0 }, { "--test", TEST, 0 }, { "--time", TIME, 0 }, { "-t", THREADS, 0 }, { "--threads", THREADS, 0 }, { "-v", VERSION, 0 }, { "--version", VERSION, 0 } };
static const int count = sizeof(names) / sizeof(names[0]);
static int lookup(const char* s, int n) { for (int i = 0; i < count; i++) { int k = 0; while (k < n && names[i].s[k] && s[k] == names[i].s[k]) k++; if (k == n && !names[i].s[k]) return i; } return -1; }
static bool number(const char* s, I& v) { try { v = primesum::to_int128(s); return true; } catch (std::exception&) { return false; } } // expressions: C15
static bool decimal(const char* s, double& v) // [sign]digits[.digits][e[sign]digits] with optional white space around it, anything else is malformed
{
  double n = 0, d = 1; bool any = false, neg = false; int ex = 0;
  while (*s == ' ' || (*s >= 9 && *s <= 13)) s++;
  if (*s == '+' || *s == '-') neg = *s++ == '-';
  for (; *s >= '0' && *s <= '9'; s++) { n = n * 10 + (int) (*s - '0'); any = true; }
  if (*s == '.') for (s++; *s >= '0' && *s <= '9'; s++) { n = n * 10 + (int) (*s - '0'); d *= 10; any = true; }
  if (any && (*s == 'e' || *s == 'E'))
  {
    s++; bool en = false; any = false; if (*s == '+' || *s == '-') en = *s++ == '-';
    for (; *s >= '0' && *s <= '9'; s++) { ex = ex * 10 + (int) (*s - '0'); any = true; }
    for (; ex > 0; ex--) { if (en) d *= 10; else n *= 10; }
  }
  while (*s == ' ' || (*s >= 9 && *s <= 13)) s++;
  v = n / d; if (neg) v = -v;
  return any && !*s;
}
static int outcome; // 0: computation, 1: help, 2: version, 3: test
static int fn, precision, threads, numbers; static I x; static bool status, time; static double alpha;
static void parse(int argc, char** argv)
{
  fn = cli::DR; precision = -1; threads = sxo::max_threads; alpha = -1; status = time = false; numbers = 0; outcome = 0;
  for (int i = 1; i < argc; i++)
  {
    const char* a = argv[i]; int len = 0; while (a[len]) len++;
    int id = lookup(a, len); const char* val = a + len;
    if (id < 0)
    {
      int d = 0; while (d < len && a[d] != '=' && !(a[d] >= '0' && a[d] <= '9')) d++;
      if (d == len) { outcome = 1; return; }
      val = a + d + (a[d] == '=');
      if (d == 0 && *val) id = lookup("--number", 8); else id = lookup(a, d);
      if (id < 0) { outcome = 1; return; }
    }
    I v;
    switch (names[id].kind)
    {
    case OPT: fn = names[id].fn; break;
    case HELP: outcome = 1; return;
    case VERSION: outcome = 2; return;
    case TEST: outcome = 3; return;
    case TIME: time = true; break;
    case STATUS: status = time = true; if (*val) { if (!number(val, v)) { outcome = 1; return; } precision = v < 0 ? 0 : v > 5 ? 5 : (int) v; } break;
    case THREADS: if (!number(val, v)) { outcome = 1; return; } threads = v < 1 ? 1 : v > sxo::max_threads ? sxo::max_threads : (int) v; break;
    case ALPHA: if (!decimal(val, alpha)) { outcome = 1; return; } break;
    case NUMBER: if (!number(val, v)) { outcome = 1; return; } x = v; numbers++; break;
    }
  }
  if (numbers != 1) outcome = 1;
}
}
static const char* const skeletons[][5] = {
  // '#' any digit ('$' one path per digit), '?' any character (not 0; '!' one path per character), '~' any printable character
  { "1###" }, { "#" }, { "-t##", "5" }, { "5", "--threads=##" }, { "--threads##", "5" }, { "-t=##", "5" },                                          // 0
  { "-s#", "5" }, { "--status=#", "5" }, { "--status##", "5" }, { "-s", "5" }, { "--status", "5" }, { "5", "--time" },                                // 6
  { "-a$.$", "5" }, { "--alpha=$.$", "5" }, { "--alpha$$", "5" }, { "-a$", "5" }, { "-a", "5" }, { "-t", "5" },                                       // 12
  { "-t###############", "5" }, { "--threads=3######################", "5" }, { "--status=429496729#", "5" }, { "-t429496#29#", "6" }, { "--status=21474836##", "6" }, { "-t-##", "5" }, // 18
  { "?" }, { "??" }, { "???" }, { "-~~~" }, { "7", "-?" }, { "7", "-??" },                                                                            // 24
  { "7", "--??" }, { "7", "--???" }, { "7", "--s?atus" }, { "7", "--threads?5" }, { "7", "-a!" }, { "7", "-a2!" },                                    // 30
  { "7", "-a2!5" }, { "7", "--lm?" }, { "7", "--lmo?" }, { "7", "--S2?easy" }, { "7", "--S?" }, { "7", "--P?" },                                      // 36
  { "#", "#" }, { "5", "6", "-t2" }, { "-t#", "-t#", "9" }, { "-a$", "-a$.$", "9" }, { "-s#", "-s#", "9" }, { "-l", "-d", "#" },                      // 42
  { "--number=###" }, { "--number##", "-l" }, { "--number=-#", "-l" }, { "--number=#", "#" }, { "--number" }, { "" },                                 // 48
  { "#e#" }, { "1##**2" }, { "##+#*#" }, { "3#/#" }, { "#x#" }, { "5", "" },                                                                           // 54
  { "--help", "5" }, { "--version", "5" }, { "--test" }, { "5", "-h#" }, { "-t?", "5" }, { "-s?", "5" },                                              // 60
  { "5", "-?#" }, { "5", "-##" }, { "--number=18446744073709551###", "-l" }, { "--number=-184467440737095516##", "-l" }, { "922337203685477580#", "--lmo" }, { "922337203685477580#", "--lmo3" }, // 66
  { "5", "-a=!5" }, { "5", "-a!5" }, { "5", "--threads=2~" }, { "5", "--status=2~" }, { "5~~" }, { "--test", "?" }, { "5", "-a2e!" }, { "5", "-a.!" },
  { "--P2", "123456#" }, { "--S1", "1e18+#" }, { "--S2_easy", "922337203685477580#", "-a3" }, { "--S2_trivial", "922337203685477580#" }, { "--S2_hard", "1e18+##", "-a1" }, { "--S2_hard", "1e2$+#", "-s1", "-t#" }, // 80
  { "--P2", "1e27+#", "-a1" }, { "--S1", "8#", "--status" }, { "--S2_easy", "7e15+#" }, { "-#.", "--P2" }, { "--S2_trivial", "1e2$", "-s" }, { "--S1", "3e27+#", "-a1" }, // 86
  { "4e27+#", "--P2", "-a1" }, { "--S1", "1e31", "-a1" }, { "--S2_trivial", "4e27+#", "-a1" }, { "--S2_easy", "36e26+#", "-a1" }, { "--S2_hard", "4e27", "-a1" }, { "--S2_hard", "6e30+#" }, // 92                                  // 72
};
static char text[8][64]; static char* args[10];
static int build(int k)
{
  int argc = 1; args[0] = (char*) "primesum";
  for (int i = 0; i < 5 && skeletons[k][i]; i++, argc++)
  {
    const char* s = skeletons[k][i]; int j = 0;
    for (; s[j]; j++)
      text[i][j] = s[j] == '$' ? (char) sx_concretize(sx_u64("digit", '0', '9')) : s[j] == '#' ? (char) sx_u64("digit", '0', '9') : s[j] == '!' ? (char) sx_concretize(1 + sx_u64("char", 0, 254)) : s[j] == '?' ? (char) (1 + sx_u64("char", 0, 254)) : s[j] == '~' ? (char) sx_u64("char", ' ', '~') : s[j];
    text[i][j] = 0; args[argc] = text[i];
  }
  return argc;
}
static bool starts(const char* p) { for (int i = 0; p[i]; i++) if (cap::length() <= (unsigned) i || cap::text()[i] != p[i]) return false; return true; }
static bool has(const char* p) { for (unsigned k = 0; k < cap::length(); k++) { unsigned i = 0; while (p[i] && k + i < cap::length() && cap::text()[k + i] == p[i]) i++; if (!p[i]) return true; } return false; }
static bool refuse;
static void check(int argc)
{
  args[argc] = nullptr; int code = program(argc, args);
  ref::parse(argc, args);
  if (ref::outcome)
  {
    sx_assert(cli::calls == 0, "no computation");
    if (ref::outcome == 1) { sx_assert(code != 0, "help menu with non-zero status"); sx_assert(starts("Usage"), "help menu printed"); sx_cover("help"); }
    if (ref::outcome == 2) { sx_assert(starts("primesum "), "version printed"); sx_cover("version"); }
    if (ref::outcome == 3) { sx_assert(cli::tests == 1 && (code == 0) == (cli::testResult != 0), "--test runs the tests, their outcome is the status"); sx_cover("test"); }
    return;
  }
  sx_assert(get_num_threads() == ref::threads && (ref::threads == sxo::max_threads || sxt::threads == ref::threads), "number of threads as requested");
  I x = ref::x; int f = ref::fn;
  sx_assert(get_status_precision(1000) == (ref::precision < 0 ? 0 : ref::precision), "status precision as requested");
  sx_assert(is_print() == ref::status, "status as requested");
  { double a = get_alpha(); sx_assert(a == ref::alpha || (a < 1 && ref::alpha < 1), "alpha as requested"); }
  bool lmo = f >= cli::LMO_P1 && f <= cli::LMO5, part = f >= cli::FP2; const I top = ~0ull >> 1;
  if (lmo && x > top) { sx_assert(cli::calls == 0 && code != 0 && starts("Error"), "too large x is refused"); sx_cover("refused"); return; }
  if (part && refuse) { sx_assert(cli::calls == 0 && code != 0 && starts("Error"), "too large x is refused"); sx_cover("refused"); return; }
  sx_assert(code == 0, "status 0");
  if (part && x < 1) { sx_assert(cli::calls == 0 && starts("0\n"), "part of no numbers"); return; }
  sx_assert(cli::calls == 1 && cli::fn == f, "the selected algorithm runs once");
  sx_assert(lmo && x < -top - 1 ? cli::x < 2 : cli::x == x, "x as requested"); sx_assert(f >= cli::LMO1 && f <= cli::LMO5 || cli::threads == ref::threads, "threads handed over");
  if (part)
  {
    int64_t y = cli::y; sx_assert(y >= 1 && (I) y * y <= x && (I) (y + 1) * (y + 1) > x / (y + 1), "y lies between the cube root and the square root of x");
    if (cli::hasZ) sx_assert(cli::z == (int64_t) (x / y), "z = x / y");
    static const int64_t prm[9] = { 0, 2, 3, 5, 7, 11, 13, 17, 19 };
    if (cli::hasC) sx_assert(cli::c >= 0 && cli::c <= 7 && prm[cli::c & 7] <= y && (cli::c >= 4 || prm[cli::c + 1] > y), "prefix primes below y");
  }
  char want[8] = { '7', '0', (char) ('0' + f / 10), (char) ('0' + f % 10), '\n', 0 };
  if (part && ref::status) { sx_assert(!print_result() && !has(want), "the part prints its own result"); sx_assert(print_variables(), "variables printed with --status"); }
  else { sx_assert(!print_variables(), "no variables"); sx_assert(has(want), "result printed"); sx_assert(has("Seconds") == ref::time, "time printed if requested"); }
  sx_cover("end");
}
extern "C" void SX_ENTRY()
{
  int mode = (int) sx_param(0); sxo::max_threads = (int) sx_u64("cores", 1, sx_param(2)); sxt::threads = -7;
  cli::testResult = (int) sx_u64("tests_pass", 0, 1);
  refuse = sx_param(3);
  if (mode == 0) { check(build((int) sx_param(1))); return; }
  // two options of the table in any order with a number before, between or after them
  static const char* const vals[] = { "", "=2", "3" };
  int a = (int) sx_param(1), b = (int) sx_concretize(sx_u64("second", 0, ref::count - 1)), pos = (int) sx_concretize(sx_u64("position", 0, 2)), argc = 1, n = 0;
  args[0] = (char*) "primesum";
  for (int k = 0; k < 3; k++)
  {
    char* t = text[k];
    if (k == pos) { t[0] = '9'; t[1] = (char) sx_u64("digit", '0', '9'); t[2] = 0; }
    else
    {
      const ref::Name& o = ref::names[n ? b : a]; n++; int j = 0; for (; o.s[j]; j++) t[j] = o.s[j];
      const char* v = o.kind == ref::THREADS || o.kind == ref::ALPHA || o.kind == ref::NUMBER ? "=2" : ""; for (; *v; v++) t[j++] = *v;
      t[j] = 0;
    }
    args[argc++] = t;
  }
  check(argc);
}

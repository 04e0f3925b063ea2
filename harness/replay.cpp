// Native meaning of the harness interface: values come from a file.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <fstream>
#include <iostream>
#include <exception>
#include <stdint.h>
typedef unsigned __int128 u128;
static std::vector<std::pair<std::string, u128>> vals; static size_t pos = 0; static std::vector<long long> params;
static int failed = 0;
static u128 parse(const std::string& s) { u128 v = 0; for (char c : s) v = v * 10 + (c - '0'); return v; }
static std::string str(u128 v) { if (!v) return "0"; std::string s; while (v) { s.insert(s.begin(), '0' + (int)(v % 10)); v /= 10; } return s; }
static u128 next(const char* name, u128 lo, u128 hi) {
  // internal (havoc) values have no native counterpart
  while (pos < vals.size() && vals[pos].first.rfind("havoc_", 0) == 0) pos++;
  if (pos >= vals.size()) { // the native run went further than the symbolic path did
    return lo; }
  if (vals[pos].first != name) { printf("REPLAY-MISMATCH want %s have %s\n", name, vals[pos].first.c_str()); fflush(stdout); _Exit(44); }
  u128 v = vals[pos++].second; if (v < lo || v > hi) { printf("REPLAY-RANGE %s\n", name); fflush(stdout); _Exit(44); } return v;
}
extern "C" {
uint64_t sx_u64(const char* n, uint64_t lo, uint64_t hi) { return (uint64_t)next(n, lo, hi); }
u128 sx_u128(const char* n, u128 lo, u128 hi) { return next(n, lo, hi); }
void sx_assume(bool c) { if (!c) { printf("REPLAY-ASSUME\n"); fflush(stdout); _Exit(44); } }
void sx_assert(bool c, const char* m) { if (!c) { printf("ASSERTION-FAILED: %s\n", m); fflush(stdout); _Exit(42); } }
uint64_t sx_concretize(uint64_t v) { return v; }
void sx_observe(const char* n, uint64_t v) { printf("OBS %s %s\n", n, str(v).c_str()); }
void sx_observe128(const char* n, u128 v) { printf("OBS %s %s\n", n, str(v).c_str()); }
int64_t sx_param(int i) { return (size_t)i < params.size() ? params[i] : 0; }
void sx_cover(const char*) {}
void sx_reject(void) { printf("REPLAY-REJECT\n"); fflush(stdout); _Exit(44); }
int sx_is_symbolic(uint64_t) { return 0; }
void sx_debug(const char*, uint64_t) {}
void sx_trace(const char*) {}
void SX_ENTRY(void);
}
int main(int argc, char** argv) {
  // replay FILE: first line "params p0 p1 ..", then "name value" lines
  std::ifstream f(argv[1]); std::string line;
  while (std::getline(f, line)) {
    if (line.rfind("params", 0) == 0) { const char* p = line.c_str() + 6; char* e; while (true) { long long v = strtoll(p, &e, 10); if (e == p) break; params.push_back(v); p = e; } continue; }
    if (line.empty() || line[0] == '#') continue;
    size_t sp = line.rfind(' '); vals.push_back({line.substr(0, sp), parse(line.substr(sp + 1))});
  }
  try { SX_ENTRY(); } catch (const std::exception& e) { printf("UNCAUGHT-EXCEPTION: %s\n", e.what()); fflush(stdout); return 43; }
  printf("REPLAY-OK\n"); return 0;
}

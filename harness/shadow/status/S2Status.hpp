// Stand-in for the progress display (prints only; no influence on results).
#pragma once
#include <int128_t.hpp>
namespace primesum { class S2Status { public: S2Status(int128_t) { } void print(int128_t, int128_t) { } static double skewed_percent(int128_t, int128_t) { return 50; } }; }

// The real factor table, but the 16-bit variant only accepts small arguments, so that the code for larger y runs.
#pragma once
#define FactorTable RealFactorTable
#include_next <FactorTable.hpp>
#undef FactorTable
namespace primesum { template <typename T> class FactorTable : public RealFactorTable<T> { public: FactorTable(int64_t y, int threads) : RealFactorTable<T>(y, threads) { } static int64_t max() { return sizeof(T) == 2 ? 1 : RealFactorTable<T>::max(); } }; }

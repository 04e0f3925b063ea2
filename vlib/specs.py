from runner import U, J

SPECS = {}

# ---------------------------------------------------------------- C07
_div = [J(10, s, covers=["end"]) for s in range(4)] + [J(11, s, t, covers=["end"]) for s in range(4) for t in (0, 1)]
_d12 = lambda l, **k: [J(12, s, n[0], n[1], n[2], d[0], d[1], w, covers=["end"], **k) for i, (n, d, w) in enumerate(l) for s in (i % 4, (i + 2) % 4)]
_d13 = lambda l, **k: [J(13, s, n[0], n[1], n[2], d[0], d[1], w, covers=["end"], **k) for i, (n, d, w) in enumerate(l) for s in (i % 4, (i + 1) % 4)]
_div += _d12([((253, 127, -1), (130, -2048), 255), ((200, -1, -1), (128, -8), 7), ((200, -1, -1), (128, 0), 1 << 60), ((253, 64, 7), (252, -100), 1 << 62), ((160, 159, 0), (127, -4), 1 << 40),
              ((253, 63, -9), (192, 5), 60), ((200, 190, 0), (190, -3), 1 << 50), ((252, 251, 250), (126, -2), 1)])
_div += _d13([((192, 64, -3), (64, -1), 255), ((200, 100, 0), (3, 2), 63), ((129, -1, -64), (128, 0), 63)])
_divT = _d12([((253, 252, -1), (64, -2), 3), ((130, 65, 3), (3, 0), 3), ((252, 251, 250), (126, -2), 7)], time=600) + \
        _d13([((253, 127, -1), (130, 12345), 31), ((252, 251, -1), (127, 1), 31), ((129, -1, -64), (128, 0), 1023)], time=600)
_c07 = [J(0, covers=["end"]), J(1, covers=["end"]), J(2, covers=["equal", "less", "greater"]), J(3, covers=["end"]), J(4, covers=["end"])] + _div + \
       [J(5, 0, 127, covers=["end"]), J(5, 128, 255, covers=["end"]), J(6, covers=["end"])]
SPECS["C07"] = dict(units=[
    U("int256", "int256.cpp", jobs=_c07, thorough=_c07 + _divT, ubsan="shift",
      bounds="+ - * comparisons, bitwise, conversions: all 2^256 values per operand; every shift count 0..255 of every non-negative value; division: all operand pairs below 2^128 and all "
             "pairs with dividend <= divisor (below 2^254) in every sign combination, plus windows of 2..2^62 divisors (dividends) around concrete wide dividends (divisors)",
      assumptions=["values are observed through the public conversion to uint128 and right shift by 128"]),
])

# ---------------------------------------------------------------- C08
_t = ["text"]
_w5 = [J(5, s, a, b, o, 1, covers=_t) for s in (0, 1) for a, b, o in
       ((128, -1, -2), (128, 64, 0), (129, -1, 12344), (160, 64, -6), (191, 127, 2), (192, -1, -2), (192, 128, 4), (200, 133, 98), (224, 96, -2), (240, 200, 6), (252, 251, -2), (253, -1, -2), (253, 252, 16), (253, 128, -4))]
_w6 = [J(6, k % 2, k, o, 1, covers=_t) for k in range(39, 77) for o in (-2,)] + [J(6, 1 - k % 2, k, 0, 1, covers=_t) for k in range(39, 77, 3)]
_w6T = [J(6, s, k, o, 1, covers=_t) for k in range(39, 77) for o in (-20, -2, 0, 1, 100) for s in (0, 1)] + [J(6, 0, k, 16, 3, covers=_t, time=400) for k in range(39, 77, 6)]
_c08 = [J(i, covers=_t) for i in range(5)] + _w5 + _w6
SPECS["C08"] = dict(units=[
    U("print", "print.cpp", jobs=_c08, thorough=_c08 + _w6T, ubsan="shift",
      bounds="all signed and unsigned 128-bit values; all 256-bit values of magnitude below 2^128; windows of 2 values around 10^39..10^76, 2^128..2^253 and mixed bit patterns, both signs, for wider magnitudes",
      assumptions=["std::ostream's character insertion is replaced by a recorder of the inserted characters (stream state and formatting flags at their defaults)"]),
])

# ---------------------------------------------------------------- C09
_fs = ["--fork-select"]
_fx = ["--fork-select", "--fp-exact", "64"]
_r = ["root"]; _e = ["end"]
_c09 = [J(*p, covers=_r, opts=_fs, time=100) for p in (
        (1, 0), (1, 1), (1, 4), (1, 5), (1, 2, 98), (1, 3, 98), (11, 0, 3, 0, 0, 0, 2097151), (11, 0, 2, 0, 0, 0, 3000000000), (11, 0, 6, 0, 0, 0, 1448), (11, 0, 4, 0, 0, 0, 55000),
        (11, 2, 3, 0, 0, 0, 17179869184), (11, 2, 2, 0, 0, 0, 281474976710656), (11, 2, 6, 0, 0, 0, 200000), (11, 2, 4, 0, 0, 0, 33554432))]
_c09 += [J(*p, covers=_r, opts=_fx, time=100) for p in (
        (3, 0, 0, 0, 0, 100), (3, 0, 3037000400, 0, 0, 99), (3, 1, 4294967200, 0, 0, 95), (3, 2, 1, 50, -50, 100), (3, 2, 3037000499, 32, -50, 100), (3, 3, 4294967295, 32, 0, 100),
        (13, 0, 3, 0, 0, 0, 200), (13, 0, 3, 2097051, 0, 0, 100), (13, 2, 3, 1, 34, -50, 100), (13, 0, 6, 0, 0, 0, 200), (13, 2, 6, 131072, 0, -50, 100),
        (0, 2, 3037000499, 31, 12345, 100000, 100000), (0, 2, 1, 63, 0, 100000, 100000), (0, 3, 1, 64, -1, 50, 100),
        (2, 0, 0, 0, 0, 100), (2, 1, 0, 0, 0, 100), (2, 2, 0, 0, 0, 100), (2, 3, 0, 0, 0, 100), (12, 0, 3, 0, 0, 0, 100))]
_c09 += [J(20, i, covers=_e, opts=_fs) for i in range(6)] + [J(21, i, covers=_e, opts=_fs) for i in range(4)] + [J(22, covers=_e, opts=_fs), J(23, 0, 12, 20, covers=_e, opts=_fs), J(23, 1000, 1003, 6, covers=_e, opts=_fs), J(24, covers=_e, opts=_fs)]
SPECS["C09"] = dict(units=[
    U("imath", "imath.cpp", jobs=_c09, ubsan="int",
      bounds="square root: every 32- and 64-bit x, every 128-bit x below 2^98 with the floating estimate ranging over {root-1, root, root+1} as its error bound allows, plus windows around perfect squares up to the type limits with "
             "the estimate's exact value; cube, 4th and 6th roots: every x below the stated r^n; ceiling division, powers of two, clamping: all values of the stated types",
      assumptions=["std::sqrt is correctly rounded (IEEE 754), std::pow(x, 1/n) has a relative error below 2^-46 and is exact where it is in glibc for the sampled windows"]),
])

# ---------------------------------------------------------------- C10
_c10 = [J(0, i, covers=_e) for i in range(16)] + [J(1, -1, 2, 200, covers=_e)] + [J(1, k, -4, 9, covers=_e) for k in range(5, 64, 2)] + \
       [J(1, k, 0x9E3779B97F4A7C15 % (1 << k), 12, covers=_e) for k in range(8, 63, 3)] + [J(1, -1, 0x7fffffffffffffff, 2, covers=_e), J(1, -1, -20, 19, covers=_e)]
_c10T = _c10 + [J(1, -1, 2 + 201 * i, 200, covers=_e) for i in range(40)] + [J(1, k, -100, 200, covers=_e) for k in range(8, 64)] + \
        [J(1, k, 0xC2B2AE3D27D4EB4F % (1 << k), 300, covers=_e) for k in range(10, 63)]
SPECS["C10"] = dict(units=[
    U("divide", "divide.cpp", jobs=_c10, thorough=_c10T, ubsan="shift",
      bounds="fast_div: all non-negative dividends and all positive divisors of every combination of 32/64/128-bit types; precomputed divider: every 64-bit dividend for each of about 750 divisors "
             "(2..202, neighbourhoods of the powers of two, spread values, the largest divisors)"),
])

# ---------------------------------------------------------------- C23
_c23 = [J(0, i, covers=_e, opts=_fs) for i in range(4)] + [J(1, 0, 0, 50, covers=_e, opts=_fx), J(1, 0, 4294967200, 95, covers=_e, opts=_fx), J(1, 2, 3037000400, 99, covers=_e, opts=_fx), J(1, 0, 1 << 26, 50, covers=_e, opts=_fx),
        J(1, 0, 94906240, 60, covers=_e, opts=_fx), J(2, 0, 100, covers=_e, opts=_fx)] + [J(3, t, k, covers=_e, opts=_fs, time=120) for t in range(4) for k in range(3)] + [J(4, t, covers=_e, opts=_fs) for t in range(4)] + \
       [J(5, covers=_e, opts=_fs)] + [J(6, t, covers=_e, opts=_fs) for t in range(5)]
SPECS["C23"] = dict(units=[
    U("pmath", "pmath.cpp", jobs=_c23, ubsan="int",
      bounds="every 32-bit and 64-bit input of isqrt (floating estimate within its error bound, exact estimates around selected squares up to 2^64), floorPow2, ilog2, isPow2, ceilDiv (dividend + divisor representable), checkedAdd, checkedSub, inBetween",
      assumptions=["std::sqrt is correctly rounded (IEEE 754)"]),
])

# ---------------------------------------------------------------- C15
_val = [4, 5, 9, 14, 17, 18, 19, 20, 21, 22, 24, 29, 30, 31, 32, 33, 34, 35, 50, 51, 53, 54, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 69, 72, 73, 74, 80, 81, 90, 91]
_rej = [37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 75, 76, 77, 78, 79, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101]
_mix = [0, 1, 3, 28]
_u = {"C15": []}
_per = {0: _val + [2, 27, 6, 13, 12, 26, 52, 23, 82, 83], 1: [4, 21, 68, 14, 63, 85, 86, 90, 65, 66, 89, 26, 50, 60, 62, 24], 2: [4, 84, 60, 61, 62, 87], 3: [4, 80, 81, 87, 14, 57, 74]}
def _c15(extra=(), light=False):
    if light:
        return [J(0, t, covers=["rejected"]) for t in _rej] + [J(0, t, covers=["rejected", "value"]) for t in _mix] + \
               [J(ty, t, covers=["value"], time=90) for ty, t in [(0, t) for t in (4, 5, 17, 20, 21, 22, 26, 29, 30, 31, 33, 34, 53, 55, 56, 57, 58, 59, 60, 61, 62, 63, 65, 69, 72, 74, 80, 82, 83, 91) if t != 55] + [(1, 85), (2, 84), (3, 80)]]
    j = [J(0, t, covers=["rejected"]) for t in _rej] + [J(0, t, covers=["rejected", "value"]) for t in _mix]
    for ty in _per:
        j += [J(ty, t, covers=["value"], time=90) for t in _per[ty]]
    return j + [J(ty, t, time=300) for ty, t in extra]
SPECS["C15"] = dict(units=[
    U("calc" + n, "calc.cpp", jobs=_c15(light=n != ""), thorough=_c15([(ty, t) for ty in (0, 1) for t in range(102) if t not in _per[ty] and t not in _rej]), ubsan="int", shadow=["std:bc"], flags=["-DCALC_HEADER=" + h],
      bounds="expressions of every shape in a list of 102 templates (up to 4 operands and 3 operators, parentheses, unary signs, white space, hexadecimal and exponent forms, incomplete and malformed texts) with symbolic digits, "
             "operators and characters; all one- and two-byte texts; value types int64, int128 and samples for uint64 and int",
      assumptions=["std::ostringstream/istringstream are replaced in the symbolic build by a small model (error messages and the conversion of a decimal to double); the native replays use the real ones"])
    for n, h in (("", '"calculator.hpp"'), ("_ps", '<primesieve/calculator.hpp>'))])

# ---------------------------------------------------------------- C12
_c12 = [J(0, c, s, -1, 0, covers=_e) for c, s in ((0, 130), (1, 128), (1, 250), (2, 64), (2, 384), (3, 640), (4, 1000))] + \
       [J(0, c, s, sd, c, covers=_e) for c in (5, 6) for s, sd in ((512, 3), (2048, 17), (1300, 100))] + [J(0, c, 700, sd, f, covers=_e) for c, f, sd in ((6, 2, 5), (6, 5, 9), (7, 7, 4), (8, 8, 2), (9, 9, 1), (9, 3, 8))] + \
       [J(0, 4, 30000, 5, 4, covers=_e), J(0, 6, 60000, 11, 6, covers=_e)] + \
       [J(1, c, s, sd, rm, st, covers=_e) for c, s, sd, rm, st in ((0, 256, 1, 0, 11), (1, 384, 2, 60, 13), (2, 384, 1, 30, 9), (4, 384, 5, 40, 5), (4, 640, 55, 20, 17), (6, 512, 7, 25, 19), (3, 126, 3, 10, 1), (4, 130, 8, 8, 3), (6, 1000, 9, 3, 31))] + \
       [J(2, 512 * i, 512, covers=_e) for i in range(8)] + \
       [J(3, n, l, covers=_e) for n, l in ((1, 1), (2, 5), (3, 11), (4, 1), (5, 101), (7, 7), (8, 1), (13, 1), (16, 1000003), (31, 9), (32, 1 << 40 | 1), (36, (1 << 61) - 101))] + \
       [J(4, n, r, sd, covers=_e) for n, r, sd in ((1, 1, 0), (2, 2, 0), (3, 3, 0), (4, 3, 1), (7, 3, 0), (8, 2, 1), (12, 2, 0), (16, 2, 1), (33, 1, 0), (64, 1, 1))] + \
       [J(5, s, c, r, sd, covers=_e) for s, c, r, sd in ((128, 4, 3, 2), (256, 3, 2, 1), (192, 2, 5, 3))]
_c12T = _c12 + [J(0, 5, 640, -1, 0, covers=_e, time=600)] + [J(0, 6, 1024, s, f, covers=_e) for s in range(40) for f in (4, 5, 6)] + [J(1, c, 512, s, 20 + s, 3, covers=_e, time=300) for c in range(7) for s in range(6)] + \
        [J(4, n, 3, s, covers=_e, time=300) for n in (9, 12, 16, 17, 20) for s in (0, 1)] + [J(4, n, 1, s, covers=_e, time=300) for n in (100, 127, 128, 129, 255) for s in (0, 1)]
SPECS["C12"] = dict(units=[
    U("bitsieve", "bitsieve.cpp", repo=["src/BitSieve.cpp"], jobs=_c12, thorough=_c12T, ubsan="int",
      bounds="interval starts: every odd number below 2^61 in all residue classes modulo 2*3*5*7 (for larger c: selected classes of the smaller primes and all classes of one prime); sieve sizes up to 60000 numbers for pre-sieving, all sub-intervals near word borders "
             "and a grid elsewhere up to 1000 numbers for sums, removal histories of up to 60 elements; tree: every subset of up to 36 numbers, every sequence of up to 3 removals from up to 64 numbers, reuse for a second interval; every entry of the 16-bit table"),
])

# ---------------------------------------------------------------- C13
_c13 = [J(0, i, 0, 1 + i % 5, covers=_e) for i in range(1, 16)] + [J(1, p, r, 1 + r % 4, s, covers=_e) for p, s in ((1, 100), (1, 2310), (2, 64), (3, 30), (4, 400), (5, 1000), (6, 512), (1, 6)) for r in (1, 2, 50, 105, 199, 204, 209, 210)]
_c13T = _c13 + [J(1, p, r, 1 + r % 4, s, covers=_e) for p, s in ((1, 90), (2, 256), (3, 130), (4, 62), (5, 2000), (6, 5000), (7, 4000)) for r in range(1, 211, 3)]
SPECS["C13"] = dict(units=[
    U("wheelpos", "wheelpos.cpp", repo=["src/Wheel.cpp"], jobs=_c13, thorough=_c13T, ubsan="int",
      bounds="15 sieving primes from 11 to about 10^12, every interval start below about 2^61 (all quotient classes modulo 210, all offsets), 60 consecutive multiples; five consecutive segments of 6..5000 numbers for primes up to 1009"),
])

# ---------------------------------------------------------------- C11
_c11 = [J(0, 0, 140, covers=_e), J(0, 180, 200, covers=_e), J(0, 1000, 1030, covers=_e), J(0, 20000, 20001, covers=_e)] + [J(1, 200, b, covers=_e) for b in (1, 57, 60, 120, 128, 190)] + [J(2, covers=_e), J(4, covers=_e)] + \
       [J(3, t, a, b, c, d, covers=_e) for t, a, b, c, d in ((16, 1, 130, 1, 4), (32, 1, 60, 1, 8), (16, 120, 135, 1, 8), (32, 165, 175, 1, 6), (16, 205, 215, 3, 8), (16, 286, 300, 1, 5), (16, 840, 845, 1, 8), (32, 1330, 1335, 1, 4),
                                                             (16, 2197, 2200, 2, 5), (16, 5000, 5001, 1, 8), (32, 5040, 5041, 1, 3), (16, 14641, 14641, 1, 2), (16, 20449, 20449, 4, 7))]
_c11T = _c11 + [J(3, 16, 40 * i, 40 * i + 40, 1, 8, covers=_e, time=600) for i in range(1, 50)] + [J(0, 100 * i, 100 * i + 100, covers=_e, time=600) for i in range(1, 20)] + [J(3, t, 100000, 100000, 1, 3, covers=_e, time=600) for t in (16, 32)]
SPECS["C11"] = dict(units=[
    U("tables", "tables.cpp", repo=["src/PiTable.cpp", "src/FactorTable.cpp"], jobs=_c11, thorough=_c11T, ubsan="int", shadow=["psieve"],
      bounds="index mappings: every number below 2^61; prime-count table: every limit in [0, 140], [180, 200], [1000, 1030] and 20000, plus every subset of 10 adjacent marked numbers at word borders; factor table (16 and 32 bit): every limit up to 130 and windows up to 20449, "
             "1 to 8 parts, every index; every limit above the maximum is refused",
      assumptions=["primesieve::iterator delivers the primes in order (C21)", "the parts of the factor table are built one after another (their independence is C25)"]),
])

# ---------------------------------------------------------------- C02
_s = ["sum"]
_c02 = [J(0, 13, 3, 1, 150, 0, b, covers=_s if b > 100 else ["empty"], time=100) for b in (0, 150, 300, 450)] + [J(0, 30, 2, 0, 400, 0, b, covers=_s, time=100) for b in (600, 1000)] + \
       [J(1, 1000, 4, 2, w, 0, b, covers=_s, time=100) for w, b in ((1000000, 193607000000), (1000000, 135423000000), (100000, 199809800000), (2000000, 135962000000), (50000, 1 << 37))] + \
       [J(1, 1013, 4, 3, 100000, 0, 181799000000, covers=_s, time=100), J(1, 100003, 3, 2, 1000000, 0, 193607500000, covers=["empty", "sum"], time=100)] + \
       [J(2, y, t, n, w, b, o, covers=_s, time=100) for y, t, n, w, b, o in ((1 << 24, 3, 2, 1 << 28, 53, 0), (1 << 28, 2, 2, 1 << 33, 62, -(1 << 32)), (1 << 29, 2, 2, 1 << 33, 63, -(1 << 31)), (1 << 29, 2, 1, 2000, 63, -1000), (1 << 30, 3, 2, 1 << 34, 64, -1),
                                                                             (1 << 34, 3, 2, 1 << 38, 70, 0), (1 << 34, 8, 1, 1 << 38, 77, -1000), (1 << 40, 3, 2, 1 << 44, 89, -100000), (1 << 40, 4, 2, 1 << 44, 100, 12345), (1 << 42, 2, 3, 1 << 46, 101, -7))]
_c02T = _c02 + [J(0, 60, 4, 1, 50, 0, 50 * i, covers=[], time=900) for i in range(48)] + [J(1, y, 6, 3, 10000000, 0, b * 1000000000, covers=_s, time=900) for y in (1000, 1010, 30011) for b in range(100, 200, 10)]
SPECS["C02"] = dict(units=[
    U("p2", "p2.cpp", repo=["src/P2.cpp"], jobs=_c02, thorough=_c02T, shadow=["psieve"], ubsan="int",
      bounds="every x < 600 (and windows up to 1400) with every y <= 13 (30) over the real primes; windows of up to 2^46 consecutive x around 2^37, 2^53, 2^62..2^64, 2^70, 2^77, 2^89..2^102 over sparse sets of up to 23 'primes' "
             "placed around y, the square root, the segment borders and x/p; 1..8 threads; every clock (0/60/1000 s between the readings) for the first 1-3 rounds of load balancing",
      assumptions=["primesieve::iterator enumerates the (arbitrary, finite) set of primes (C21)", "pi_legendre and prime_sum_tiny as specified (C17)", "the threads' parts are evaluated one after another (independence: C25)"]),
])

# ---------------------------------------------------------------- C03
_pl = ["--poly"]
_c03 = [J(0, 0, c, 0, 100, 1, 0, c, covers=_e, opts=_pl, time=100) for c in range(7)] + [J(1, 0, c, 0, 100, 3, 0, c, covers=_e, opts=_pl, time=100) for c in range(8)] + \
       [J(0, 1, c, 0, 3037000499, 1, 0, c, covers=_e, opts=_pl, time=100) for c in range(5)] + [J(1, 1, c, 0, 4294967295, 1, 0, c, covers=_e, opts=_pl, time=100) for c in range(5)] + \
       [J(2, 2, c, 4294967296, 1125899906842624, 1, 0, c, covers=_e, opts=_pl, time=100) for c in range(5)]
_c03r = [J(3, 0, 4, a, b, x, w, 0, covers=_e) for a, b, x, w in ((1, 20, 0, 40), (20, 36, 100, 20), (60, 60, 1000, 30))]
SPECS["C03"] = dict(units=[
    U("s1", "s1.cpp", repo=["src/S1.cpp"], jobs=_c03, shadow=["i256", "psieve"], ubsan="int",
      bounds="every 64-bit x with every y <= sqrt(2^63) and every x in [2^63, 2^110] with every y < 2^32 over the primes <= 100 (y <= 100) and over sparse sets of 8 'primes' up to 2^32; every x <= 2^110 with every y in [2^32, 2^50] over 7 'primes' up to 2^40; "
             "prefix lengths 0..7",
      assumptions=["phi_sum is a function of both arguments, here x * (a + 1) * scale (its values: C06)", "256-bit sums replaced by 128-bit ones where all values stay below 2^127 (C07)", "the iterations of the parallel loop run one after another (C25)"]),
    U("s1-real", "s1.cpp", repo=["src/S1.cpp", "src/phi_sum.cpp", "src/generate.cpp"], jobs=_c03r, thorough=_c03r + [J(3, 0, 7, y, y + 4, x, 50, 0, covers=_e, time=900) for y in range(1, 60, 5) for x in (0, 50, 500)], shadow=["psieve"], flags=["-DREALPHI"], ubsan="int",
      bounds="with the real phi_sum and the real 256-bit type: y <= 20, 20..36, 60 and windows of 20..40 x up to 1030, every prefix length 0..4"),
])

# ---------------------------------------------------------------- C06
_rs = ["src/phi_sum.cpp", "src/phi.cpp", "src/PhiTiny.cpp", "src/PiTable.cpp", "src/generate.cpp"]
_c06 = [J(0, a, r, min(r + 59, n), 0, 99, covers=_e, opts=_pl, time=100) for a, n in ((0, 1), (1, 3), (2, 11), (3, 59), (4, 419)) for r in range(0, n + 1, 60)] + \
       [J(0, 5, r, r + 19, 60, 99, covers=_e, opts=_pl, time=100) for r in (0, 990, 2300, 4600)] + [J(0, 6, r, r + 3, 128, 199, covers=_e, opts=_pl, time=100) for r in (0, 30029, 60056)] + \
       [J(2, 0, covers=_e)] + [J(3, 20, a, b, 200, t, covers=_e) for a, b, t in ((0, 100, 1), (100, 180, 2), (400, 440, 3), (960, 975, 1))] + [J(3, 8, 5000, 5001, 200, 2, covers=_e), J(3, 60, 300, 302, 400, 2, covers=_e), J(3, 105, 3000, 3000, 700, 2, covers=_e)] + \
       [J(4, a, o, h, w, covers=_e) for a, o, h, w in ((3, (1 << 63) - 200, 0, 400), (5, -100, 0, 200), (4, 123456789, 54210108, 10), (9, -1000, 0, 100), (9, 77, 1 << 34, 3), (10, -5, 0, 10), (11, 12345, 1, 3), (8, 99999, 542101086242, 5), (2, -3, 1, 6), (1, -3, 1, 6), (0, -1, 4, 3))] + \
       [J(5, a, r, min(r + 34, n), w, covers=_e, opts=_pl, time=100) for a, n in ((0, 0), (1, 1), (2, 5), (3, 29), (4, 209)) for r in range(0, n + 1, 35) for w in range(3) if a < 4 or not w or r in (0, 105)] + \
       [J(5, a, r, r + 9, w, covers=_e, opts=_pl, time=100) for a, r in ((5, 0), (5, 1150), (5, 2300), (6, 0), (6, 15010), (6, 30020)) for w in range(3)]
_c06T = _c06 + [J(5, 4, r, r + 34, w, covers=_e, opts=_pl, time=900) for r in range(35, 210, 35) for w in (1, 2)] + [J(5, 5, r, r + 29, w, covers=_e, opts=_pl, time=900) for r in range(0, 2310, 30) for w in range(3)] + [J(0, 5, r, r + 99, 60, 99, covers=_e, opts=_pl, time=900) for r in range(0, 4520, 100)] + [J(3, 30, 20 * i, 20 * i + 19, 200, 2, covers=_e, time=900) for i in range(9, 60)]
_c06b = [J(1, a, r, min(r + 59, n), 0, 99, covers=_e, opts=_pl, time=100) for a, n in ((0, 1), (1, 3), (2, 11), (3, 59), (4, 419)) for r in range(0, n + 1, 60)]
SPECS["C06"] = dict(units=[
    U("phisum", "phisum.cpp", repo=_rs, jobs=_c06, thorough=_c06T, shadow=["psieve"], ubsan="int",
      bounds="phi_sum: every 64-bit x (up to 2^63 minus one period) for a <= 4 primes, every x > 2^32 * 6 in some residue classes for a = 5, 6; phi and PhiTiny: every 32-bit x for a <= 4, every 64- and 128-bit x for a <= 3 and a third of the residue classes for a = 4, some residue classes for a = 5, 6; "
             "a up to 105 over the real primes for x in windows up to 5001; 256-bit form also on windows of 3..400 values around 2^63, 2^64, 2^65, 10^27, 2^98, 10^31 for a <= 11; every x <= 0",
      assumptions=["generate_n_primes returns the first primes (C17, C21)"]),
    U("phisum256", "phisum.cpp", repo=_rs, jobs=_c06b, shadow=["i256", "psieve"], ubsan="int",
      bounds="256-bit form: every x in [2^63, 1.37 * 2^63] for a <= 4", assumptions=["256-bit sums replaced by 128-bit ones where all values stay below 2^127 (C07)"]),
])

# ---------------------------------------------------------------- C04
_X = lambda x: ((x & (2**64 - 1)) - (2**64 if (x >> 63) & 1 else 0), x >> 64)
_c04j = lambda u, y0, y1, x, w, c, t=1, cv=("sum",), **k: J(u, y0, y1, *_X(x), w, c, t, covers=list(cv), opts=_pl, **k)
_c04 = [_c04j(100, a, b, x, w, c, t, time=100) for a, b, x, w, c, t in ((2, 12, 4, 1700, 4, 2), (13, 20, 150, 4000, 3, 1), (20, 30, 400, 3000, 4, 1), (20, 30, 3400, 3000, 2, 2), (30, 40, 1000, 6000, 2, 1), (40, 45, 8000, 8000, 6, 1), (50, 55, 20000, 20000, 3, 1), (70, 72, 90000, 60000, 2, 2), (97, 100, 150000, 60000, 3, 1), (60, 62, 180000, 48000, 3, 1))] + \
       [_c04j(u, y, y, x, w, c, 2, time=100, cv=cv) for u, y, x, w, c, cv in (
         (300, 200, 100000, 30000, 2, _s), (300, 290, 2000000, 200000, 1, _s), (300, 300, 26900000, 100000, 2, []), (1000, 600, 1000000, 20000, 1, _s), (1000, 990, 40000000, 3000, 1, _s),
         (10000, 10010, 200 * 10**9, 10**7, 2, _s), (10000, 10010, 997 * 1009 * 1511 - 10**6, 10**7, 2, _s), (10000, 10010, 1003 * 10**8 * 5 - 10**6, 10**8, 2, []), (10001, 4000050, 1000003 * 2000003 * 4000037 - 10**12, 2 * 10**12, 3, _s), (10001, 4000050, 2**64 - 10**11, 2 * 10**11, 3, _s),
         (10001, 4000050, 65537 * 3000017 * 4000037, 10**12, 3, _s), (10001, 4000050, 1000003**2 * 3000017 - 10**7, 10**10, 3, _s), (10001, 4000050, 2**63 - 10**11, 2 * 10**11, 3, _s), (10001, 6000012, 2000003 * 2100001 * 3000017 - 10**10, 2 * 10**10, 6, _s), (10001, 6000012, 1000003 * 2100001 * 6000011 + 10**10, 2 * 10**12, 6, _s),
         (10001, 4294967295, 1000003 * 4294967291 * 4000037 - 10**12, 2 * 10**12, 3, _s), (10001, 4294967295, 2000003 * 2100001 * 4294967291 * 1000 - 10**14, 2 * 10**14, 3, []),
         (10003, 4294967295, 10**27, 10**15, 2, []), (10003, 4294967295, 5 * 10**27, 10**15, 2, []), (10003, 4294967295, 2147483659 * 3000000019 * 101, 10**15, 2, []), (10003, 4294967295, 2147483659 ** 2 * 3000000019 // 1000 - 10**13, 10**15, 2, _s),
         (10002, 20000000034, 10**27, 10**15, 2, _s), (10002, 20000000034, 5 * 10**25, 10**15, 2, _s), (10002, 20000000034, 131101 * 4294967311 * 20000000033 - 10**14, 2 * 10**14, 2, _s), (10002, 20000000034, 4000037 * 4294967311 * 12000000007 - 10**14, 2 * 10**14, 3, _s))]
_c04T = _c04 + [_c04j(100, y, y + 1, y * y + k * y * y * y // 8, y * y * y // 8 + 1, 3, 1, time=900, cv=[]) for y in range(20, 100, 2) for k in range(8)] + \
        [_c04j(1000, y, y, x, 200000, 3, 1, time=900, cv=[]) for y in range(300, 1000, 100) for x in (y * y + 10, y ** 2 * 16, y ** 3 // 3, y ** 3 // 2, y ** 3 - 100000)]
_b04 = "every y <= 12 with every x, and windows up to 60000 consecutive x for y up to 100 (every y in some sub-ranges), 200, 290, 300, 600, 990 over the real primes; windows of up to 10^15 consecutive x around 10^9..2*10^11, 2^63, 2^64, 8*10^18..10^27 over sparse sets of " \
       "14..20 'primes' with y up to 2*10^10 (all three data layouts); prefix lengths 1..6; 1 or 2 threads"
_a04 = ["PiTable and primesieve deliver counts and primes of the chosen set (C11, C21)", "x^(1/3) - 1 <= y <= sqrt(x), z = x / y < 2^61 (C01)", "the threads' parts are evaluated one after another (C25)"]
SPECS["C04"] = dict(units=[
    U("trivial", "s2.cpp", repo=["src/deleglise-rivat/S2_trivial.cpp"], jobs=_c04, thorough=_c04T, shadow=["pitable", "psieve", "status"], flags=["-DTRIVIAL"], ubsan="int", bounds=_b04, assumptions=_a04),
    U("easy", "s2.cpp", repo=["src/deleglise-rivat/S2_easy.cpp"], jobs=_c04, thorough=_c04T, shadow=["pitable", "psieve", "status"], ubsan="int", bounds=_b04, assumptions=_a04),
    U("easy-libdivide", "s2.cpp", repo=["src/deleglise-rivat/S2_easy_libdivide.cpp"], jobs=_c04, thorough=_c04T, shadow=["pitable", "psieve", "status", "libdiv:bc"], ubsan="int", bounds=_b04, assumptions=_a04 + ["libdivide divides exactly (C10); the native replays use the real one"]),
])

# ---------------------------------------------------------------- C05
_c05j = lambda *p, cv=("sum",), **k: J(*p, covers=list(cv), **k)
_c05 = [_c05j(*p, time=120, cv=[]) for p in ((7, 49, 294, 4, 4, 3, 1), (8, 64, 448, 4, 5, 2, 0), (12, 144, 600, 4, 5, 2, 1), (12, 1200, 528, 4, 5, 3, 0), (30, 900, 500, 4, 4, 2, 1))] + \
       [_c05j(*p, time=120) for p in ((13, 1500, 500, 4, 5, 2, 1), (20, 3000, 700, 4, 6, 2, 1), (20, 7800, 200, 4, 5, 3, 1), (30, 25000, 300, 4, 5, 2, 1), (40, 40000, 60, 4, 4, 2, 2), (50, 40000, 100, 4, 5, 2, 1), (50, 124900, 30, 4, 5, 3, 1), (60, 215900, 30, 4, 4, 2, 1), (100, 200000, 40, 4, 4, 2, 1), (100, 990000, 5, 4, 6, 2, 0),
         (150, 1000000, 4, 5, 5, 2, 1), (200, 60000, 100, 4, 4, 2, 1), (250, 250000, 20, 5, 5, 2, 1))]
_c05f = [_c05j(*p, time=120) for p in ((20, 3000, 300, 4, 5, 2, 1), (30, 25000, 200, 4, 4, 2, 1), (60, 150000, 50, 4, 6, 2, 0), (100, 200000, 20, 4, 4, 2, 1), (200, 60000, 60, 4, 4, 2, 1))]
_c05T = _c05 + [_c05j(y, y * y + k * y * y * (y - 1) // 5, w, 4, c, 3, 1, time=900, cv=[]) for y, w, c in ((10, 190, 4), (20, 1500, 6), (30, 1500, 5), (40, 500, 5), (50, 300, 5), (70, 100, 4), (100, 50, 5), (130, 20, 5)) for k in range(5)] + [_c05j(200, 7900000, 5, 6, 6, 2, 0, time=900), _c05j(300, 2000000, 5, 5, 5, 2, 0, time=900)]
_r05 = ["src/deleglise-rivat/S2_hard.cpp", "src/BitSieve.cpp", "src/PiTable.cpp", "src/FactorTable.cpp", "src/Wheel.cpp", "src/generate.cpp"]
_b05 = "windows of up to 700 consecutive x up to y^3 for y from 7 to 250; prefix lengths 4..6; 1 to 3 threads; counting by tree, by direct summation, and mixed; every schedule of segment sizes 512..2048 and 1, 2 or 5 segments per thread in the first one or two updates (fixed afterwards)"
_a05 = ["z = x / y, y <= sqrt(x), x <= y^3 (C01)", "any schedule of the load balancer (C14)", "the threads' parts are evaluated one after another (C25)", "prime lists and counts (C11, C21)"]
SPECS["C05"] = dict(units=[
    U("hard", "s2hard.cpp", repo=_r05, jobs=_c05, thorough=_c05T, shadow=["balancer", "psieve"], ubsan="int", bounds=_b05, assumptions=_a05),
    U("hard-wide", "s2hard.cpp", repo=_r05, jobs=_c05f, thorough=_c05T, shadow=["ft", "balancer", "psieve"], ubsan="int", bounds="the 128-bit-x, 256-bit-sum instantiation with the 32-bit factor table, selected by lowering FactorTable<uint16_t>::max(): " + _b05, assumptions=_a05),
])

# ---------------------------------------------------------------- C14
_c14 = [J(*p, covers=_e, time=150) for p in (
        (0, 1, 1, 1000000, 0, 1000000, 150, 0, 1, 1), (0, 1, 1, 1000000, 0, 1000000, 150, 1, 1, 64), (0, 2, 1, 1000000, 0, 1000000, 150, 0, 1, 1), (0, 2, 1, 1000000, 0, 1000000, 150, 0, 1, 128), (0, 2, 1, 10 ** 12, 0, 1000000, 15000, 0, 1, 1),
        (0, 2, 1, 10 ** 12, 0, 1000000, 15000, 1, 1, 1024), (0, 3, 1, 10 ** 18, 0, 1000000, 1500000, 1, 1, 1), (0, 3, 1, 10 ** 18, 0, 1000000, 1500000, 0, 1, 1 << 20), (0, 2, 1, 0, 54210108624275, 10 ** 9, 3 * 10 ** 12, 1, 1, 1), (0, 2, 1, 0, 5421010862427, 10 ** 9, 3 * 10 ** 11, 0, 1, 1024),
        (0, 1, 1, 0, 5421010862427, 10 ** 9, 10 ** 11, 0, 0, 1 << 20), (0, 1, 2, 0, 542101086242752, 10 ** 9, 3 * 10 ** 13, 0, 0, 1), (0, 2, 1, 100, 0, 1000, 5, 0, 1, 1), (0, 1, 1, 2, 0, 10, 1, 0, 1, 1), (1, 2, 1, 10 ** 15, 0, 1000000, 10 ** 6, 0, 0, 1), (1, 2, 1, 10 ** 6, 0, 1000000, 300, 0, 0, 16))]
_c14T = _c14 + [J(0, t, r, 10 ** k % (1 << 64) - ((1 << 64) if 10 ** k % (1 << 64) >> 63 else 0), 10 ** k >> 64, 1000, int(10 ** (k / 3) * 3), l, 1, s, covers=_e, time=800) for t, r in ((1, 2), (2, 2), (3, 1), (4, 1)) for k in (6, 10, 14, 20, 25, 27) for l in (0, 1) for s in (1, 64)]
_tf = ["-D_OPENMP"]; _ts = ["i256", "tiny", "omp", "std:bc", "calc:bc"]
_tr = ["src/primesum.cpp", "src/PhiTiny.cpp", "src/deleglise-rivat/pi_deleglise_rivat_parallel1.cpp"]
SPECS["C14"] = dict(units=[
    U("balance", "balance.cpp", repo=["src/S2LoadBalancer.cpp"], jobs=_c14, thorough=_c14T, ubsan="int",
      bounds="1 to 4 threads, one or two consecutive updates from any segment size 1, 2, 4 or 8 times the minimum and any number of segments per thread in [1, 1], [16, 31], [64, 127], ... [2^20, 2^21), every sieve position, every vector of thread times (0 or 1 us .. 11 days each); windows of up to 10^9 consecutive x around 10^2 .. 10^27, both callers (z and z + 1 as limit)",
      assumptions=["doubles are followed as intervals (conversions, + - * / sqrt log pow min max); comparisons the intervals do not settle are explored both ways"]),
    U("clamp", "top.cpp", repo=_tr, jobs=[J(0, covers=_e), J(1, covers=_e), J(2, 5, 0, 1000, covers=_e), J(2, 10 ** 18, 0, 10 ** 9, covers=_e), J(2, *_X(10 ** 21 - 10 ** 6), 5 * 10 ** 5, covers=_e), J(2, *_X(10 ** 21), 1000, covers=_e), J(2, *_X(10 ** 23 - 10 ** 9), 10 ** 8, covers=_e), J(2, *_X(10 ** 23 + 10 ** 8), 10 ** 12, covers=_e)],
      flags=_tf, shadow=_ts, ubsan="int", bounds="every thread count, limit and threshold; every sequence of two set_num_threads calls for every number of available threads up to 2^20; every status precision, windows of x around 10^18, 10^21 and 10^23"),
])

# ---------------------------------------------------------------- C22
_ps = "lib/primesieve/src/"
_c22 = [J(0, *p, time=120) for p in ((17, 300000, 20000000, 100, 4, -1, 30), (4611686018427387909, 20000, 10 ** 12, 50, 4, -1, 30), (4611686018427387909, 20000, 5 * 10 ** 9, 50, 8, -1, 30), (8446744073709551613, 10 ** 8, 8 * 10 ** 18, 100, 4, -1, 30),
        (0, 100, 10 ** 12, 1000, 8, -1, 30), (8446744073709551613, 10 ** 9, 8 * 10 ** 18, 100, 4, 1, 30), (1, 10, 10 ** 15, 100, 4, -1, 30), (0, 10, -100, 80, 4, -1, 1), (-3000000000, 0, 2999999970, 29, 3, -1, 1), (29, 1000, 7 * 10 ** 18, 20, 16, -1, 30),
        (6, 1000, 10 ** 8, 20, 16, -1, 1), (2305843009213693950, 2000, 20000000, 100, 64, -1, 30), (0, 10 ** 6, 10 ** 12, 10 ** 12, 4, 0, 1), (-10 ** 12, 9999999, 9 * 10 ** 11, 10 ** 6, 2, -1, 30), (-3000000000, 20, 2999999979, 20, 3, -1, 1), (0, 1000, 1000, 19000000, 8, -1, 1), (-1, 0, 0, 10, 4, -1, 1), (0, 3, -21, 5, 2, -1, 1))] + \
       [J(1, 0, 10, 20000000, 1000, 3, 4, 1, covers=["sum"], time=120), J(1, 10 ** 6, 1000, 30000000, 10 ** 7, 4, 4, 1, covers=["sum"], time=120), J(3, covers=_e)]
_c22k = [J(0, 1, 8, 8, i, f, covers=_e) for i, f in ((0, -1), (3, 0), (7, 6148914691236517205), (5, 0x1e3e3f073e0ec018))] + [J(0, 2, 16, 5, 20, -1, covers=_e), J(0, 2, 16, 16, 15, -1, covers=_e), J(0, 3, 8, 3, 18, 0, covers=_e), J(2, 1, 8, 8, -1, -1, covers=_e), J(2, 1, 8, 8, -1, 0x3fdf7ebd1f9f7f3f, covers=_e)] + \
        [J(1, *p, covers=_e, time=120) for p in ((1, 128, 128, 0, 0, 16, 1), (1, 8, 8, 0, 0, 1, 1229782938247303441), (1, 128, 128, 0, -1, 8, 1 << 40), (1, 128, 128, 8, 0, 16, 1 << 20), (2, 128, 136, 10, -1, 20, 1 << 40), (1, 8, 8, 0, 0, 1, 65535), (1, 8, 8, 0, -1, 1, 16776960), (1, 8, 8, 0, 0, 1, 0xffff << 40), (1, 8, 8, 0, 0, 1, -(1 << 48)), (2, 16, 7, 0, 0, 3, 1 << 8), (1, 136, 131, 15, -1, 17, 255), (1, 256, 256, 14, 0, 20, 1 << 62))]
SPECS["C22"] = dict(units=[
    U("split", "psplit.cpp", repo=[_ps + f for f in ("ParallelSieve.cpp", "PrimeSieve.cpp")], extra_src=["iosobj.cpp"], jobs=_c22, thorough=_c22 + [J(0, 30 * 10 ** k + r, 1000, 10 ** d, 100, t, -1, 30, time=300) for k in (0, 6, 12, 17) for r in (0, 1, 2, 6, 7, 29) for d, t in ((8, 8), (11, 16), (14, 3), (18, 6))], shadow=["thr"], ubsan="shift",
      bounds="every part of the interval and the part after it (arbitrary part number), for windows of starts (up to 10^8 of them, stepping by 30, or up to 1000 in a row) and distances (20 .. 10^12 in a row) between 0 and 2^64 - 1; every number of threads up to 2 .. 64 available ones; "
             "every assignment of up to 4 parts to threads; every interval [start, stop] for the primes and k-tuplets with members below 7",
      assumptions=["the threads run one after another (they share only the atomic counter)", "the sieve returns arbitrary counts for a part (C20)"]),
    U("tuplets", "ktup.cpp", repo=[_ps + f for f in ("PrintPrimes.cpp", "PrimeSieve.cpp", "popcount.cpp", "LookupTables.cpp")], extra_src=["iosobj.cpp"], jobs=_c22k, shadow=["std:bc"], ubsan="shift",
      bounds="k-tuplets: every value of one byte between any of several neighbours, one to three segments of up to 16 bytes, every combination of counters; primes: segments of up to 256 bytes, up to 17 open bits at a time (columns, bytes, pairs of bytes of a word)"),
])

# ---------------------------------------------------------------- C21
_nx = ["end", "next"]
_c21 = [J(f, *p, covers=_nx, time=120) for f in (0, 1) for p in ((0, 2, 1000, 1, 0, 2, -719, 0, 0), (727, 3, 4, 0, 0, 3, -3, 0, 3), (1000, 4, 100, 0, 0, 4, 17), (1000, 3, 1000, 0, 1, 3, 13, 10), (727, 3, 2, 0, 0, 4, 13), (2870, 3, 719, 0, 0, 3, 13, 5), (2870, 2, 719, 0, 0, 3, 9, 0, 0, 1), (10 ** 6, 3, 5000, 1, 1, 3, -300, 0, 100),
        (10 ** 12, 4, 10 ** 5, 1, 1, 4, 17), (10 ** 12, 3, 10 ** 6, 1, 1, 3, 13, 14), (10 ** 12, 4, 10 ** 5, 1, 1, 3, -500000, 0, 1000), (1000003 ** 2 - 200, 4, 100, 1, 1, 4, 17), (4294967291 ** 2 - 300 - (1 << 64), 3, 100, 1, 2, 4, 13), (-3000, 3, 1000, 1, 0, 4, 13), (-3000, 3, 1000, 1, 0, 4, -2999), (-500, 3, 200, 1, 3, 4, 13, 14),
        (-10 ** 9, 3, 10 ** 8, 1, 0, 3, -3 * 10 ** 8), (-3000, 2, 1000, 1, 0, 3, 9, 0, 0, 1), (-(1 << 63), 3, 10 ** 7, 1, 0, 3, -3 * 10 ** 7, 0, 10 ** 6), (10 ** 9, 4, 30, 1, 2, 4, 17), (10 ** 15, 3, 10 ** 8, 1, 1, 4, -3 * 10 ** 8))] + \
       [J(2, *p, covers=_e, time=120) for p in ((0, 2, 727, 0, 0, 0, -719, 7, 0), (0, 2, 900, 0, 0, 0, -12, 0, 0, 701, 60), (0, 2, 900, 0, 0, 0, -12, 0, 0, 1, 60), (727, 4, 4, 0, 0, 0, 15, 15), (1000, 4, 100, 0, 0, 0, 15, 15), (10 ** 12, 3, 10 ** 6, 0, 1, 0, 11, 11), (10 ** 15, 2, 1000, 1, 1, 0, -2000, 4, 1000), (-3000, 3, 1000, 1, 0, 0, 13, 13), (1000003 ** 2 - 200, 4, 100, 0, 1, 0, 15, 15))] + \
       [J(3, *p, covers=_e, time=120) for p in ((0, 2, 727, 0, 0, 8, -719, 0, 0), (1000, 4, 100, 0, 0, 5, 17), (10 ** 6, 4, 1000, 0, 0, 5, -5000, 0, 500), (10 ** 12, 3, 10 ** 6, 0, 1, 4, 13), (-3000, 3, 1000, 1, 0, 4, 13), (-3000, 3, 1000, 1, 1, 4, -40, 0, 20))] + \
       [J(4, *p, covers=_e, time=120) for p in ((100020, 440, 0, 64, 0, 0, 0, 1, 190, 3, 190, 370, 0), (10 ** 12, 600, 0, 128, 7, 0, 7, 0, 280, 250, 400, 400, 0), (10 ** 12, 600, 0, 128, 6, 0, 7, 0, 280, 250, 400, 400, 0), (727, 800, 0, 256, 3, 0, 0, 0, 200, 150, 300, 500, 2), (100020, 600, 0, 16, 0, 0, 0, 0, 126, 100, 200, 400, 3), (10 ** 9, 600, 0, 128, 2, 0, 0, 0, 190, 150, 257, 120, 3), (-20000, 1000, 0, 512, 0, 0, 0, 0, 250, 200, 400, 440, 2))]
SPECS["C21"] = dict(units=[
    U("iterate", "piter.cpp", repo=[_ps + f for f in ("iterator.cpp", "iterator-c.cpp", "IteratorHelper.cpp", "PrimeGenerator.cpp", "LookupTables.cpp")], extra_src=["iosobj.cpp"], jobs=_c21, shadow=["pscfg", "std:bc"], ubsan="shift",
      bounds="every history of 3 or 4 calls (next, previous, skipto) of the C++ and the C iterator over every set of primes out of 2 .. 4 candidates (727, 10^3, 10^6, 10^9, 10^12, 10^15, around squares, 2^63, up to 2^64 - 1), from every start around the candidates, in windows of up to 3 * 10^8 starts, or in 0 .. 719, with every stop hint around the candidates; "
             "every interval around the candidates and every start in 0 .. 719 for stored lists, up to 8 primes for n-primes lists; 600 .. 1000 dense primes forwards and backwards past the ends of the 256-prime buffer",
      assumptions=["a segment of the sieve shows the primes in it (C20); segments without any prime are not shown, and the generator's stand-in checks the sieving primes it is given", "memory limits of the iterator divided by 1024 (they only set the distance)", "calls of prev that go down more than 3 * 10^8 without a prime are outside"]),
])

# ---------------------------------------------------------------- C24
_c24 = [J(*p, covers=_e, time=120) for p in (
        (0, 0, 40, 0, 3, 3, 4), (0, 0, 2000, 0, 3, 4, 5), (0, 0, 2000, 100, 3, 4, 5), (0, 0, 400, 0, 20, 4, 5), (0, 10 ** 12, 1000, 500, 3, 3, 4), (0, 10 ** 12, 3000, 1500, 3, 4, 5), (0, -2000, 1998, 1000, 3, 3, 4), (0, -6000, 5998, 4500, 4, 4, 5), (0, -6000, 5998, 3000, 20, 3, 3),
        (0, -2000, 1998, 800, 40, 3, 3), (0, -2000, 1998, 1995, 3, 3, 0), (0, -1000, 999, 999, 0, 2, 0), (0, -1000, 999, 10, 3, 3, 3),
        (1, 1000, 10, 0, 3, 20, 200000, 1, 3), (1, 1000, 1000, 0, 3, 20, 200000, 1, 3), (1, 1000, 10, 0, 3, 20, 200000, 150000, 1), (1, 1000, 10, 4000000, 3, 20, 200000, -150000, 1), (1, 10 ** 12, 20, 0, 3, 28, 500000, 400000, 1), (1, 10 ** 12, 20, 14000000, 3, 28, 500000, -400000, 1),
        (1, 10 ** 12, 20, 14000000, 3, 28, 500000, 0, 0), (1, 10 ** 12, 20, 14000000, 3, 28, 1000000, -400000, 1), (1, -14000600, 20, 0, 3, 44, 318000, -1, 3), (1, -14000600, 20, 14000400, 3, 44, 318000, -300000, 1), (1, -14000600, 20, 13000000, 3, 44, 318000, 50000, 1),
        (1, 9 * 10 ** 18, 20, 13000000, 3, 44, 3000000, 200000, 1), (1, 9 * 10 ** 18, 20, 130000000, 3, 44, 3000000, -200000, 1), (1, 2, 20, 0, 3, 12, 2000000, 500000, 1), (1, 2, 20, 10000000, 3, 12, 2000000, -700000, 1), (1, 2, 20, 10000000, 3, 12, 2000000, -833333, 3), (1, 2, 20, 10000000, 3, 12, 2000000, -300000, 1))]
SPECS["C24"] = dict(units=[
    U("nth", "nthp.cpp", repo=[_ps + "nthPrime.cpp", _ps + "PrimeSieve.cpp"], extra_src=["iosobj.cpp"], jobs=_c24,
      thorough=_c24 + [J(*p, covers=_e, time=800) for p in ((0, 10 ** 12, 3000, 1500, 30, 5, 6), (0, 0, 2000, 100, 30, 5, 6), (0, 1 << 32, 6000, 3000, 10, 6, 7), (0, 0, 10000, 5000, 3, 3, 4), (1, -14000600, 20, 0, 3, 44, 318000, 300000, 1), (1, -14000600, 20, 0, 3, 44, 318000, 318020, 1), (1, 10 ** 15, 60, 0, 3, 35, 3000000, 2000000, 1), (1, 10 ** 15, 60, 90000000, 3, 35, 3000000, -2000000, 1))],
      shadow=["std:bc"], ubsan="shift",
      bounds="every set of 2 .. 4 primes in windows of 40 .. 6000 numbers at 0, 10^12 and below 2^64, 1 .. 41 consecutive starts, every n in -5 .. 5 (n < 0 away from 0: that and one more prime exist); regular sets of 200000 .. 3000000 primes at every offset in a window of 10 .. 1000 "
             "(mean distance 8 .. 44, at 2, 10^3, 10^12, 9 * 10^18 and below 2^64), 1 .. 4 consecutive starts, n around 1, 0, +-150000 .. 700000 and past both ends",
      assumptions=["counting and iterating deliver the primes (C21, C22)", "the libm functions of concrete arguments are the C library's"]),
])

# ---------------------------------------------------------------- C16
_c16 = [J(0, i, c, 1 if 92 <= i < 98 else 0) for i in range(98) for c in ((1024,) if i not in (2, 18, 44) else (1024, 1, (1 << 31) - 1))] + [J(1, i, 64, 0, time=60) for i in range(30)]
SPECS["C16"] = dict(units=[
    U("cli", "cli.cpp", repo=["src/app/cmdoptions.cpp", "src/app/help.cpp", "src/primesum.cpp", "src/print.cpp", "src/PhiTiny.cpp"], extra_src=["iosobj.cpp", "cli_main.cpp", "cap_cli.cpp"], jobs=_c16,
      flags=["-D_OPENMP"], shadow=["tiny", "omp", "std:bc", "calcx:bc"], ubsan="shift",
      bounds="98 argument shapes of up to 3 arguments (whole arguments of up to 3 arbitrary bytes, every option name with open digits or bytes in its value or around it, values up to 25 digits, repeated and conflicting options, numbers and expressions, x around the limits of the algorithms) and all pairs of the 30 option spellings in every order around a number; every number of available cores up to 1024 (2^31 - 1 for the thread options)",
      assumptions=["the computations themselves are recorders (C01 - C06)", "integer expressions are evaluated by the program's parser in both the program and the reference (C15)", "digits after the decimal point are converted to double as strtod does", "exit() ends the program; stream output is recorded at the library's entry points"]),
])

# ---------------------------------------------------------------- C17
_c17 = [J(*p, covers=_e, opts=_fs if p[0] == 1 else (), time=100) for p in (
        (0, 4), (0, 8), (1, 0, 0, 1, 0), (1, 0, -5, 6, 1), (1, 1, 2, 1, 0), (1, 2, 4, 11, 1), (1, 3, 16, 239, 0), (1, 4, 256, 1000, 1), (1, 4, 65000, 535, 0), (1, 5, 65536, 1000, 0), (1, 5, (1 << 32) - 300, 299, 0), (1, 6, 1 << 32, 1000, 1), (1, 6, 10 ** 12, 10 ** 4, 0),
        (1, 6, (1 << 53) - 500, 1000, 0), (1, 6, 4611686014132420609 - 500000, 10 ** 6, 0), (1, 6, (1 << 63) - 5808, 5807, 1), (1, 6, 134217757 ** 2 - 2, 3, 0), (1, 6, 2147483647 ** 2 - 16, 31, 0), (1, 6, 3037000499 ** 2 - 8, 15, 0), (1, 6, 3037000498 ** 2 - 2, 3, 0), (2,), (3, 4, 0), (3, 4, 1), (3, 4, 2), (3, 8, 3), (3, 8, 4), (3, 12, 2), (4, 5), (4, 12), (5, 0, 40), (5, 59, 60), (5, 100, 102), (5, 120, 121), (5, 959, 963), (5, 2308, 2312), (5, 5038, 5044))]
SPECS["C17"] = dict(units=[
    U("small", "small.cpp", repo=["src/primesum.cpp", "src/generate.cpp", "src/pi_legendre.cpp", "src/nth_prime.cpp"], jobs=_c17, thorough=_c17 + [J(5, a, a + 3, covers=_e, time=600) for a in range(41, 200, 12)] + [J(0, 24, covers=_e, time=600), J(4, 24, covers=_e, time=600)],
      flags=["-D_OPENMP"], shadow=["psieve", "omp", "std:bc", "calc:bc"], ubsan="int",
      bounds="prime_sum_tiny and the prime lists: every limit and every ascending list of 4, 8 or 12 primes up to 2^62 (2^28 .. 2^60 by element type); pi_legendre: windows of 2 .. 10^6 consecutive x over all recursion depths up to 2^63 - 1, every number of threads, every pi() at every level; nth_prime: all 64-bit n; "
             "Moebius, least prime factor and prime count tables: all entries for every max in 0 .. 40, 59 .. 60, 100 .. 102, 120 .. 121, 959 .. 963, 2308 .. 2312, 5038 .. 5044",
      assumptions=["prime lists and iterators deliver the primes (C21, C24)", "phi(x, pi(sqrt(x))) = pi(x) - pi(sqrt(x)) + 1 (C06)", "the tables' sizes are explored one by one (their sieves have no other input)"]),
])

# ---------------------------------------------------------------- C26
_c26 = [J(*p, covers=_e, time=200) for f in (0, 6) for p in ((f, 0, 30, 2, 0, 4), (f, 31, 60, 2, 0, 3), (f, 92, 30, 1, 0, 4), (f, 500, 5, 2, 0, 4), (f, 2000, 20, 1, 0, 2), (f, 10000, 3, 2, 1, 3), (f, 46650, 8, 1, 0, 6), (f, 100000, 2, 3, 1, 3), (f, 262140, 6, 1, 0, 3), (f, 1000000, 1, 2, 1, 1))] + \
       [J(f, *p, covers=_e, time=200) for f in (1, 2, 3, 4, 5) for p in ((0, 60, 1, 0, 4 if f > 1 else 0), (61, 60, 1, 0, 2 if f > 1 else 0), (1000, 8, 1, 0, 4 if f > 1 else 0), (3000, 20, 1, 0, 2 if f > 1 else 0), (100000, 10, 1, 0, 6 if f > 1 else 0))] + [J(f, 1000000, 1, 1, 0, 2, covers=_e, time=200) for f in (3, 4, 5)] + \
       [J(f, p, w, 2, 0, 1, covers=_e, time=200) for f in (7, 8) for p, w in ((-100, 101), (2, 30), (5000, 6))] + [J(f, 200000, 0, 1, 0, a, 195, covers=_e, time=200) for f in (0, 2, 3, 4, 5, 6) for a in (158, 353)] + [J(f, 1000000, 0, 1, 0, 980, 60, covers=_e, time=200) for f in (0, 5, 6)]
_c26T = _c26 + [J(f, x, w, 3, 1, 6, covers=_e, time=850) for f in (0, 6) for x, w in ((122, 100), (222, 100), (1000, 30), (4096, 20), (30000, 4), (250000, 1), (3000000, 0))] + [J(f, x, w, 1, 0, 6, covers=_e, time=850) for f in (2, 3, 4, 5) for x, w in ((121, 200), (2000, 100), (50000, 40), (1000000, 3))] + \
        [J(f, x, 0, 1, 0, a, n, covers=_e, time=850) for f in (0, 5, 6) for x, a, n in ((1000000, 200, 200), (1000000, 400, 200), (1000000, 600, 200), (1000000, 800, 200), (10000000, 3100, 50))]
_r26 = ["src/" + f + ".cpp" for f in "primesum generate pi_legendre nth_prime P2 S1 phi phi_sum PhiTiny PiTable FactorTable BitSieve Wheel lmo/pi_lmo1 lmo/pi_lmo2 lmo/pi_lmo3 lmo/pi_lmo4 lmo/pi_lmo5 lmo/pi_lmo_parallel1 deleglise-rivat/pi_deleglise_rivat_parallel1 deleglise-rivat/S2_trivial deleglise-rivat/S2_hard".split()]
_b26 = "windows of 2 .. 130 consecutive x between -100 and 10^6; tuning factor default, 1, 1.3, 1.7, 2.2, 3 or at its maximum, and for x = 200000 every y from the cube root to the square root (x = 10^6: the 61 largest); 1 to 3 threads; any schedule of segment sizes 512 .. 2048 and segments per thread in the first update"
_a26 = ["prime lists and counts (C20 - C24)", "any schedule of the load balancer (C14)", "the threads' parts are evaluated one after another (C25)", "std::log, std::pow, std::sqrt are within their error bounds; doubles are followed as intervals"]
SPECS["C26"] = dict(units=[
    U("e2e", "e2e.cpp", repo=_r26 + ["src/deleglise-rivat/S2_easy.cpp"], jobs=_c26, thorough=_c26T, flags=["-D_OPENMP"], shadow=["balancer", "psieve", "omp", "status", "std:bc", "calc:bc"], ubsan="int", bounds=_b26, assumptions=_a26),
    U("e2e-libdivide", "e2e.cpp", repo=_r26 + ["src/deleglise-rivat/S2_easy_libdivide.cpp"], jobs=[j for j in _c26 if j["params"][0] == 0 and j["params"][1] in (31, 10000, 46650, 100000)], flags=["-D_OPENMP"],
      shadow=["balancer", "psieve", "omp", "status", "std:bc", "calc:bc", "libdiv:bc"], ubsan="int", bounds="Deleglise-Rivat with the libdivide variant of S2_easy: " + _b26, assumptions=_a26 + ["libdivide divides exactly (C10); the native replays use the real one"]),
])

# ---------------------------------------------------------------- C01
_c01w = [(-5, 6), (-(1 << 100), 1 << 60), (2, 60), (62, 200), (700, 400), (10 ** 6 - 50, 100), (10 ** 9 - 500, 1000), (2 ** 31 - 100, 200), (2 ** 32 - 100, 200), (2 ** 53 - 100, 200), (2 ** 63 - 100, 200), (2 ** 64 - 100, 200), (10 ** 20, 10 ** 6), (10 ** 24, 10 ** 8), (46341 ** 3 - 50, 100),
         (2097152 ** 3 - 100, 200), (1000003 ** 3 - 100, 200), (1625 ** 6 - 100, 200), (64 ** 6 - 50, 100), (10 ** 27, 10 ** 9)]
_c01 = [J(3, *_X(x), w, a, -1, covers=_e) for x, w in _c01w for a in (-2, -1, 0, 1, 3, 4, 5, 8, 10, 11)]
_lim = lambda al: int((2.0 ** 61 * al) ** 1.5)
_c01l = [J(3, *_X(x), w, a, r, covers=["refused"] if r else _e) for al, a in ((1.0, 3), (1.5, 5), (2.0, 6), (10.0, 7), (33.3, 8)) for x, w, r in ((_lim(al) - (1 << 70), 1 << 60, 0), (_lim(al) - (1 << 55), (1 << 55) - (1 << 50), 0), (_lim(al) + (1 << 50), 1 << 50, 1), (_lim(al) + (1 << 66), 1 << 62, 1), (2 * _lim(al), 1 << 62, 1))] + \
        [J(3, *_X(53 * 10 ** 29), 10 ** 15, -1, 0, covers=_e), J(3, *_X(532 * 10 ** 28), 10 ** 15, -1, 1, covers=["refused"]), J(3, *_X(10 ** 31), 10 ** 16, -1, 1, covers=["refused"]), J(3, *_X(10 ** 34), 10 ** 18, 8, 1, covers=["refused"]), J(3, *_X((1 << 127) - (1 << 62)), (1 << 62) - 1, 3, 1, covers=["refused"])]
SPECS["C01"] = dict(units=[
    U("assembly", "top.cpp", repo=_tr, jobs=_c01 + _c01l, flags=_tf, shadow=_ts, ubsan="int",
      bounds="windows of 6 .. 10^15 consecutive x around 2, 10^3, 10^6, 10^9, 2^31, 2^32, 2^53, 2^63, 2^64, 10^20, 10^24, 10^27, several perfect cubes and sixth powers and the maxima for alpha = 1 .. 33.3 and the default; tuning factor: default, eight fixed values (0 .. 10^300) and every multiple of 0.001 up to 2*10^7; every number of threads up to 2^16; y < 2^53",
      assumptions=["the parts (P2, S1, S2_trivial, S2_easy, S2_hard) return arbitrary values (their own values: C02 - C05)", "numbers printed and parsed back by the program keep their value (C08, C15)", "256-bit sums replaced by 128-bit ones (C07)",
                   "std::log, std::pow have a relative error below 2^-50"]),
])

# ---------------------------------------------------------------- not claimed
NOT_APPLICABLE = {
    "C20": "No check yet: the sieve kernels write through byte pointers at positions that depend on the (symbolic) window position, so each residue class of the position modulo 30 * prime is a path of its own; the encoding was not finished",
    "C25": "The engine executes one thread: it has no model of interleavings of OpenMP worksharing loops and records no access sets per iteration, so absence of data races cannot be an assertion in it. Order effects are covered where the schedule is an input (C05, C14, C22, C26)",
}

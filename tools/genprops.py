#!/usr/bin/env python3
# writes /verif/properties.jsonl (source of truth for the property texts)
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

TEST = "The test suite compares algorithms exhaustively for x < 10^4 and at random points up to about 4.5*10^9; "

prop("C01", "Top-level sum is assembled exactly, with valid tuning parameters, or refused",
 "For every x up to the supported maximum, every thread count and every tuning factor, the computed sum equals ordinary leaves + trivial + easy + hard special leaves + (sum of primes <= y) - 1 - (two-large-prime-factor term), all evaluated with the same y between the cube root and the square root of x, z = x / y and a prefix of at most 7 small primes none exceeding y. "
 "For x < 2 the sum is 0, and x above the supported maximum is refused with an error instead of yielding a number. The Lagarias-Miller-Odlyzko variant obeys the same rule for its own terms.",
 ["inputs", "configurations"], "all 128-bit x, all alpha in [1, x^(1/6)] (including user supplied ones outside, which are clamped), all thread counts >= 1",
 TEST + "the 64/128-bit limit check, the clamps of alpha and the y/z arithmetic above 2^63 are never executed.",
 ["src/deleglise-rivat/pi_deleglise_rivat_parallel1.cpp", "src/lmo/pi_lmo_parallel1.cpp", "src/primesum.cpp", "include/imath.hpp", "include/PhiTiny.hpp"],
 [("assembly of the sum and limit check", "pi_deleglise_rivat_parallel1"), ("alpha clamp", "get_alpha_deleglise_rivat, get_alpha_lmo"), ("prefix choice", "PhiTiny::get_c")],
 ["return value / exception of the sum function"])

prop("C02", "The two-large-prime-factors term is exact for any threads and timing",
 "For every x and y, the P2 term equals the sum over primes p with y < p <= sqrt(x) of p * (sum of primes q with p <= q <= x / p), i.e. the sum of the numbers <= x with exactly two prime factors, both above y. "
 "The value does not depend on the number of threads, on how the sieving interval is divided between them or on measured run times.",
 ["inputs", "schedules"], "all x (64-bit and 128-bit code paths), y with x^(1/3) <= y <= sqrt(x), thread counts, and all sequences of measured times that drive the work distribution",
 "The sieving interval x / y has to exceed 2^23 numbers before more than one chunk is created; every x in the test suite is processed by one chunk per call, so chunk reconstruction and load balancing never run with a non-trivial history.",
 ["src/P2.cpp"], [("per chunk sums and corrections", "P2_OpenMP_thread"), ("reconstruction across chunks", "P2_OpenMP_master"), ("chunk size control", "balanceLoad")],
 ["P2(x, y, threads)"])

prop("C03", "The ordinary-leaves term is exact",
 "For every x, y and prefix length c, the ordinary-leaves term equals the sum over all squarefree n <= y whose prime factors all exceed the c-th prime of mu(n) * n * (sum of the numbers <= x/n coprime to the first c primes), including n = 1. It does not depend on the thread count.",
 ["inputs", "schedules"], "all x in 64-bit and 128-bit range, all y (32-bit and 64-bit prime tables), all c in 0..7, all thread counts",
 TEST + "y stays below about 10^4, so the 64-bit prime table, the 128/256-bit sums and deep products never occur.",
 ["src/S1.cpp", "src/phi_sum.cpp"], [("recursive enumeration of squarefree n", "S1_OpenMP_thread"), ("first level over primes", "S1_OpenMP_master")], ["S1(x, y, c, threads)"])

prop("C04", "Trivial and easy special leaves are summed exactly in both build variants",
 "For every x, y, z = x / y and c, the trivial-leaves term and the easy-leaves term each equal the sum, over the special leaves n = p * q (primes p < q <= y, p above the prefix and above sqrt(y) for easy leaves) of their class, of p * q * (1 + sum of the primes r with p <= r <= x / n). "
 "Every special leaf is counted in exactly one class and the result is the same in the build with the fast-division library and the build without it, for every thread count.",
 ["inputs", "configurations", "schedules"], "all x, y, z, c within the supported range; x/p below and above 2^64; y below and above 2^32; both build configurations",
 TEST + "x / p exceeds 2^64 (plain division branch) and y exceeds 2^32 only for x far beyond what a test can run.",
 ["src/deleglise-rivat/S2_trivial.cpp", "src/deleglise-rivat/S2_easy.cpp", "src/deleglise-rivat/S2_easy_libdivide.cpp"],
 [("clustered and sparse easy leaves", "S2_easy_OpenMP"), ("trivial leaves", "S2_trivial_OpenMP")], ["S2_trivial(...)", "S2_easy(...)"])

prop("C05", "The hard special leaves are exact however the sieve is split",
 "For every x, y, z and c the hard-leaves term equals the sum over the hard special leaves n of -mu(n) * n * (sum of the numbers <= x / n free of the primes below n's smallest prime factor). "
 "It is independent of segment size, segments per thread, thread count, measured run times and of which of the two counting methods is used for a segment.",
 ["inputs", "schedules", "configurations"], "all x, y, z, c; all thread counts; all legal segment sizes and segments-per-thread sequences a load balancer can produce",
 TEST + "their intervals fit a handful of segments, run times are near zero so the balancer walks one path, and the tree based counter is used only for a few segments.",
 ["src/deleglise-rivat/S2_hard.cpp", "src/S2LoadBalancer.cpp"], [("per-thread partial sums and deferred products", "S2_hard_OpenMP_thread"), ("reconstruction in order", "S2_hard_OpenMP_master"), ("method switch", "few_leaves")],
 ["S2_hard(x, y, z, c, threads)"])

prop("C06", "Partial sieve sums and counts over small-prime prefixes are exact",
 "For every x >= 0 and every prefix length a, the partial sieve sum equals the sum of the integers in [1, x] not divisible by any of the first a primes, in its 128-bit and its 256-bit form, and the partial sieve count equals their number. Negative x gives 0.",
 ["inputs"], "all x up to 2^63 (sum as 128-bit) and up to 2^127 (sum as 256-bit), all a in the supported range",
 TEST + "no test uses x above 2^33, so x*(x+1)/2 near the integer limits and the 256-bit variant's large quotients are unexercised.",
 ["src/phi_sum.cpp", "src/phi.cpp", "src/PhiTiny.cpp", "include/PhiTiny.hpp"], [("recursion over the primes", "phi_sum"), ("periodic tables", "PhiTiny"), ("cached recursion", "PhiCache")],
 ["phi_sum(x, a)", "phi(x, a)"])

prop("C07", "256-bit integer arithmetic is exact two's complement arithmetic",
 "For all 256-bit operands, addition, subtraction, negation, multiplication, increment, decrement, bitwise operations, shifts by 0..255 bits of non-negative values, comparisons, construction from and conversion to the built-in integers equal the mathematical result modulo 2^256. "
 "Division and remainder of values of magnitude below 2^254 equal truncated division, and quotient * divisor + remainder gives back the dividend.",
 ["inputs"], "all pairs of 256-bit values (2^512 operand pairs), all shift counts",
 "No test exercises the 256-bit type directly; sums in the test suite stay below 2^70 so carries into and out of the upper half and negative wide products do not occur.",
 ["include/int256_t.hpp"], [("carry and borrow", "operator+, operator-"), ("64x64 partial products and fast path", "operator*"), ("shift-subtract division", "udiv256, div256")],
 ["value of every operator"])

prop("C08", "128-bit and 256-bit results are printed as their exact decimal value",
 "For every 128-bit and every 256-bit value of magnitude below 2^254 the text output is the canonical decimal representation: optional minus sign, no leading zeros, '0' for zero.",
 ["inputs"], "all 128-bit signed and unsigned values and all 256-bit values below 2^254 in magnitude",
 "Tests compare integers, not text; printed results above 2^64 are never checked.",
 ["include/int128_t.hpp", "include/int256_t.hpp"], [("digit loop", "operator<<")], ["characters sent to the stream"])

prop("C09", "Integer roots, powers, ceiling division and clamping are exact",
 "For every non-negative x of every integer width used (32, 64 and 128 bits), the integer square root is the unique r with r^2 <= x < (r+1)^2 and the integer n-th root (n = 2, 3, 4, 6) the unique r with r^n <= x < (r+1)^n, no matter how the floating point estimate is rounded. "
 "Ceiling division of a non-negative by a positive number (where dividend + divisor is representable), rounding to powers of two, integer power and clamping (of values of the same signedness) return their mathematical value wherever it is representable.",
 ["inputs"], "all 64-bit and 128-bit x, all floating point estimates within the rounding error of the root",
 "Tests check small ranges plus a few points near 10^18; the dangerous inputs are the 2^32 / 2^64 perfect squares +-1 (and cubes) and the type limits.",
 ["include/isqrt.hpp", "include/imath.hpp", "lib/primesieve/include/primesieve/pmath.hpp"], [("correction loops around the floating point estimate", "isqrt, iroot"), ("power overflow guard", "ipow")],
 ["isqrt(x)", "iroot<n>(x)", "ceil_div", "next_power_of_2", "in_between"])

prop("C10", "Fast division returns the exact quotient",
 "For every non-negative dividend and every positive divisor, the optimized division helpers return floor(dividend / divisor): the 128-by-64-bit helper for every 128-bit dividend, including quotients that do not fit 64 bits, and the precomputed-reciprocal divider for every 64-bit dividend and every divisor >= 2.",
 ["inputs"], "all dividends up to the full type range, per divisor",
 "Tests exercise only dividends below 2^33; a wrong rounding of the reciprocal shows up for single dividends near 2^64.",
 ["include/fast_div.hpp", "include/libdivide.h"], [("narrowing to 64-bit division", "fast_div"), ("branch-free reciprocal", "libdivide_u64_branchfree")],
 ["fast_div(x, y)", "n / branchfree_divider(d)"])

prop("C11", "Compressed lookup tables agree with their definition at every index",
 "For every n up to the table limit: the prime-count table returns the number of primes <= n; the factor table returns, for every n coprime to 2,3,5,7 (stored through a compressed index), the correct Moebius value (n > 1 and squarefree) and the correct result of comparing a prime below n with its least prime factor; the number <-> index mappings are inverse and monotonic. The content does not depend on the number of threads used to build it.",
 ["inputs", "configurations"], "all table sizes within the bound, every index, thread counts 1..8, 16-bit and 32-bit entries",
 "Tests only see the tables through small end results; entry widths above 16 bits need y > 2^32.",
 ["include/PiTable.hpp", "src/PiTable.cpp", "include/FactorTable.hpp", "src/FactorTable.cpp", "src/generate.cpp"], [("bit-packed counting", "PiTable"), ("wheel compression and factor update", "FactorTable")],
 ["PiTable::operator[]", "FactorTable::mu/lpf/get_number/to_index", "generate_*"])

prop("C12", "The bit sieve and the indexed sum tree always agree with the set they represent",
 "After any sequence of initialisation, pre-sieving by the first c primes and removals on an interval starting at any position, the sum over a sub-interval reported by the bit sieve equals the sum of the numbers still present in it, and the tree's prefix sums equal the sums of the numbers still present up to that position. The two always agree with each other.",
 ["inputs", "histories"], "all interval start positions, all sub-intervals, all removal sequences up to the bound, all bit patterns of a sieve word",
 TEST + "they only observe the structures through final sums with interval starts below 10^7.",
 ["src/BitSieve.cpp", "include/BitSieve.hpp", "include/BinaryIndexedTree.hpp", "include/SumBits.hpp"], [("word-wise weighted bit sums", "BitSieve::sum"), ("Fenwick tree", "BinaryIndexedTree")],
 ["BitSieve::sum", "BinaryIndexedTree::sum"])

prop("C13", "Wheel positions make every sieving prime hit exactly its wheel-coprime multiples",
 "For every interval start and every sieving prime, the first position and all following steps visited for that prime are exactly the multiples of the prime in the interval whose cofactor is coprime to the wheel primes, each once and in increasing order, and the state saved at the end of a segment resumes at the next such multiple.",
 ["inputs", "histories"], "all interval starts up to 2^62, all primes, any number of consecutive segments up to the bound",
 TEST + "interval starts in tests are below 10^7 and always aligned the same way.",
 ["include/Wheel.hpp", "src/Wheel.cpp", "src/deleglise-rivat/S2_hard.cpp"], [("first multiple", "Wheel constructor"), ("step table", "Wheel::next_multiple_factor")],
 ["WheelItem state, elements removed by cross_off"])

prop("C14", "Work distribution always makes progress and stays legal for any timing",
 "For every sequence of measured run times (including zero and wildly unequal ones), every thread count and every remaining range, the load balancers keep segment sizes and segments per thread positive and within their limits (power-of-two segment sizes, at most the remaining range), never divide by zero or overflow, so every number of the range is processed exactly once and the loop ends.",
 ["schedules", "inputs"], "all vectors of thread timings, all x, y, z in range, all thread counts within the bound",
 "Timings in a test run are all near zero; the balancing decisions for slow or skewed threads never execute.",
 ["src/S2LoadBalancer.cpp", "src/P2.cpp", "src/primesum.cpp", "src/S2Status.cpp"], [("segment growth and deviation control", "S2LoadBalancer::update"), ("P2 distance control", "balanceLoad"), ("thread clamp", "ideal_num_threads, set_num_threads")],
 ["segment_size, segments_per_thread after each update"])

prop("C15", "Arithmetic expressions are evaluated exactly or rejected",
 "Every expression built from integers (decimal, hex, scientific with 'e'), parentheses, unary +, -, ~ and the operators ** ^ * / % + - << >> & | evaluates to its value under the documented precedence and associativity whenever all intermediate values are representable in the result type, exponents are non-negative and shifts move a non-negative value by 0 up to (width - 1) bits; every malformed expression and every division or remainder by zero is rejected with an error instead of a number.",
 ["inputs"], "all expression strings up to the bounded length over the expression alphabet, all digit values",
 "Tests evaluate a fixed list of expressions.",
 ["include/calculator.hpp", "lib/primesieve/include/primesieve/calculator.hpp"], [("precedence climbing parser", "ExpressionParser")],
 ["calculator::eval<T>(string)"])

prop("C16", "Command-line options are parsed to exactly the documented configuration",
 "For every argument list of options (-t<N>, --threads=N, -a<N>, --alpha=N, -s[N], --status[=N], --time, -d, -l, --lmo, --lmo1..5, --P2, --S1, --S2_trivial, --S2_easy, --S2_hard, --number=x and the bare number x, in any order, either spelling, the last of repeated options counting), the program "
 "runs exactly the selected computation once, on exactly x, with the requested number of threads (clamped to 1 .. available), status precision (clamped to 0 .. 5), tuning factor and output (result, time if asked, status); an x that is too large for the selected algorithm, an unknown option, a missing or malformed "
 "value, no number or two numbers end with the help menu or an error message and a non-zero exit status and without a computation; --test exits with 0 exactly if the tests pass. (Values are integer expressions within 128 bits, for --alpha decimal numbers; a value attached to an option that takes none is ignored.)",
 ["inputs", "configurations"], "all argument vectors of the stated shapes: every digit, every byte where a shape leaves it open, all pairs of options around the number",
 "No test runs the program with arguments other than --test.",
 ["src/app/cmdoptions.cpp", "src/app/main.cpp"], [("option table and splitting", "parseOptions, makeOption"), ("dispatch to the computations", "main")],
 ["settings, calls made, text written, exit status"])

prop("C17", "Small prime sums, prime counts and generated arrays are exact",
 "For every n: the direct prime summation equals the sum of the primes <= n (0 below 2), the Legendre prime count equals pi(n) with phi() asked for a = pi(sqrt(n)) on every level, the n-th prime (n < 10, 2 for n < 2, an error from 10 on) is the n-th, and generated prime lists, first-n-primes lists and prime-sum lists have the i-th prime (sum of the first i primes) at index i after the sentinel 0 at index 0; Moebius, least-prime-factor and prime-count tables match their definitions at every index, with the documented maximum as least prime factor of 1.",
 ["inputs"], "all n in the stated range; all thread counts",
 TEST + "helpers are only sampled through end results, and the 1-based sentinel conventions are not asserted anywhere.",
 ["src/generate.cpp", "src/primesum.cpp", "src/pi_legendre.cpp", "src/nth_prime.cpp"], [("sieving generators", "generate_*"), ("phi based count", "pi_legendre")],
 ["returned arrays and values"])

prop("C20", "The sieve crosses off exactly the composites with a given prime factor",
 "For every sieving prime and every position of the sieving window up to 2^64, each of the small, medium and large prime sieving algorithms marks exactly the window's multiples of that prime which are >= its square and coprime to 2, 3 and 5 as composite, never a prime, and carries the right state to the following segments.",
 ["inputs", "histories"], "all sieving primes in the class, all window positions (all residues), several consecutive segments and sieve sizes",
 "primesieve's tests compare counts for small starts and a few points near 10^12..2^64 only; a wrong wheel table entry for one residue class can hide.",
 ["lib/primesieve/src/EratSmall.cpp", "lib/primesieve/src/EratMedium.cpp", "lib/primesieve/src/EratBig.cpp", "lib/primesieve/include/primesieve/Wheel.hpp", "lib/primesieve/src/LookupTables.cpp", "lib/primesieve/src/PreSieve.cpp"],
 [("first multiple and wheel index", "Wheel::addSievingPrime"), ("unrolled cross-off", "EratSmall/EratMedium::crossOff"), ("bucket scheduling", "EratBig"), ("pre-sieve pattern", "PreSieve")],
 ["sieve array content"])

prop("C21", "Prime iteration and interval generation skip and invent no primes",
 "For every start, stop and direction, iterating forwards or backwards yields exactly the primes of the range in order across refills, direction changes and skips, and generating or counting primes in [start, stop] includes both ends; ranges touching 2^64 - 1 terminate with the documented end marker or an error, never with wrong primes.",
 ["inputs", "histories"], "all starts/stops (including 0, start > stop and the neighbourhood of 2^64), all sequences of next/prev/skipto calls within the bound",
 "Tests iterate from a few fixed starts up to 10^6..10^9 and near 10^12; interval arithmetic near 2^64 and mixed call sequences are not covered.",
 ["lib/primesieve/src/iterator.cpp", "lib/primesieve/src/iterator-c.cpp", "lib/primesieve/src/IteratorHelper.cpp", "lib/primesieve/src/PrimeGenerator.cpp", "lib/primesieve/include/primesieve/iterator.hpp"],
 [("interval planning", "IteratorHelper::next, IteratorHelper::prev"), ("refill", "generate_next_primes, generate_prev_primes"), ("bit decoding", "PrimeGenerator::fill")],
 ["values returned by next_prime/prev_prime"])

prop("C22", "Multi-threaded prime and k-tuplet counting partitions the interval exactly",
 "For every interval and every thread count, the sub-intervals given to the threads are disjoint, cover the whole interval and never split a prime k-tuplet, so counts of primes, twins, triplets, ... are independent of the thread count; each k-tuplet pattern is counted by its members inside [start, stop].",
 ["inputs", "schedules"], "all start <= stop < 2^64, thread counts 1..64, every sieve byte pattern",
 "Tests compare thread counts for a few intervals; boundary alignment modulo 30 near stop and near 2^64 is not sampled.",
 ["lib/primesieve/src/ParallelSieve.cpp", "lib/primesieve/src/PrimeSieve.cpp", "lib/primesieve/src/PrintPrimes.cpp", "lib/primesieve/src/popcount.cpp"],
 [("thread distance and alignment", "ParallelSieve::getThreadDistance, align"), ("k-tuplet tables", "PrintPrimes::initCounts")],
 ["counts per thread, sub-interval bounds"])

prop("C23", "Sieve helper arithmetic never overflows or rounds wrongly",
 "For every 64-bit input, the sieve library's integer square root, base-2 logarithm, power-of-two rounding, ceiling division (where dividend + divisor is representable), saturating add/subtract and clamping return a mathematically valid value (exact or saturated as documented), also at 0 (where defined) and at 2^64 - 1.",
 ["inputs"], "all 64-bit inputs", "Unit tests use some thousands of values; failures sit at single points near 2^32 squares and 2^64.",
 ["lib/primesieve/include/primesieve/pmath.hpp", "lib/primesieve/include/primesieve/bits.hpp", "lib/primesieve/src/popcount.cpp"], [("saturating arithmetic", "checkedAdd, checkedSub"), ("correction loop", "isqrt")], ["return values"])

prop("C24", "Finding the n-th prime in either direction is exact",
 "For every n (positive, negative, 0 meaning the first prime >= start) and every start, the n-th-prime search of the sieve library returns the n-th prime > start (the |n|-th prime < start for n < 0), or an error when there is none; the distance estimate and the forward and backward correction steps never change the answer.",
 ["inputs"], "all n up to about 10^6 and all starts within 64 bits (windows), sparse and dense sets of primes",
 "Tests cover about a hundred (n, start) pairs.", ["lib/primesieve/src/nthPrime.cpp"], [("estimate then sieve forwards/backwards", "PrimeSieve::nthPrime")], ["nth_prime(n, start)"])

prop("C26", "Every algorithm variant sums exactly the primes up to x, end to end",
 "For every x up to a few million (0 for x < 2, negative x included), every tuning factor, every number of threads and every schedule of the sieve segments, the Deleglise-Rivat implementation (with and without libdivide), the parallel Lagarias-Miller-Odlyzko implementation, the five sequential Lagarias-Miller-Odlyzko variants and pi() all return exactly the sum of the primes <= x: "
 "their terms fit together without gap or overlap between ordinary, trivial, easy and hard special leaves and the two-large-factors term.",
 ["inputs", "configurations", "schedules"], "windows of consecutive x, all tuning factors of a list from the default to the maximum, all schedules within the bound",
 "The test program compares algorithms with each other on x < 10000 and random steps with the default tuning factor and the machine's number of threads.",
 ["src/lmo", "src/deleglise-rivat", "src/P2.cpp", "src/S1.cpp", "src/primesum.cpp"], [("Lagarias-Miller-Odlyzko", "pi_lmo1 .. pi_lmo5, pi_lmo_parallel1"), ("Deleglise-Rivat", "pi_deleglise_rivat_parallel1")],
 ["returned sums"])

prop("C25", "Parallel sections are free of data races and order effects",
 "In every parallel section the results are the same for every assignment of loop iterations to threads and every interleaving: iterations write disjoint data, share only read-only data, or combine by exact associative integer reduction.",
 ["schedules"], "all iteration orders and thread assignments for up to 8 threads",
 "A race shows only under particular timings; tests run with 4 threads on fast small inputs.",
 ["src/P2.cpp", "src/S1.cpp", "src/deleglise-rivat/S2_easy.cpp", "src/deleglise-rivat/S2_easy_libdivide.cpp", "src/deleglise-rivat/S2_trivial.cpp", "src/deleglise-rivat/S2_hard.cpp", "src/lmo/pi_lmo_parallel1.cpp", "include/FactorTable.hpp", "src/phi.cpp"],
 [("OpenMP reductions and per-thread arrays", "omp parallel for regions")], ["access sets of loop iterations"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")

#pragma once
#include "sim_clock.h"
namespace butil {
inline uint64_t fast_rand() { return sim_rand64(); }
inline uint64_t fast_rand_less_than(uint64_t n) { return n ? sim_rand64() % n : 0; }
template <typename T> T fast_rand_in(T lo, T hi) { return lo + (T)(sim_rand64() % (uint64_t)(hi - lo + 1)); }
inline double fast_rand_double() { return (sim_rand64() >> 11) * (1.0 / 9007199254740992.0); }
}

#pragma once
#include <cstdint>
extern "C" int64_t sim_clock_wall_us();
extern "C" int64_t sim_clock_mono_us();
extern "C" uint64_t sim_rand64();
extern "C" void sim_point();

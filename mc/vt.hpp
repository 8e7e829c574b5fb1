// Virtual threads: OpenMP regions of the code under test run as coroutines of one OS thread under a
// controlled scheduler; every memory access inside a region is observed (the sources are compiled with
// -fsanitize=thread instrumentation, linked to this runtime instead of the sanitizer's).
#pragma once
#include <string>

namespace vt {
struct Stats {
    long regions = 0, threads = 0, accesses = 0, granules = 0, visible = 0, switches = 0, ordered = 0;
    bool racy = false;
    std::string race; // first unsynchronised conflict
};
// order: 0 run threads in ascending order, 1 descending, 2 explore (decisions through the engine)
void begin(int order, int delays);
Stats end();
} // namespace vt

// rt.hpp - interface of the controlled runtime (rt.cpp) that replaces the OpenMP and the thread-sanitizer runtimes.
#pragma once
#include <cstddef>
#include <cstdint>
struct RtReport {
    uint64_t regions, multi, accesses, locations, syncs, choices, barriers; int maxThreads;
    int race;            // 1: a conflict was found, text says where
    int deadlock, diverged;
    char text[4096]; uint64_t pc[2];
    int nlog; struct { short n, taken, cost; } log[4096]; // every decision: candidates, candidate taken, preemptions it cost
};
typedef void (*RtFn)(void*);
struct RtApi {
    void (*begin)(int threads, int reverse, const short* prefix, int n);
    void (*end)(RtReport*);
    void (*parallel)(RtFn fn, void* data, unsigned threads);
    int (*threadNum)();
    void (*ignore)(uintptr_t from, size_t bytes); // a location shared by design
};
extern "C" const RtApi* rt_api();

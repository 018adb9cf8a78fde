// ops.hpp - interface of the libraries of operations (ops.cpp) that the explorers load in several builds.
#pragma once
#include "rt.hpp"
struct OpsApi {
    int (*count)(int list, int thorough);          // list 0: shape sweep of everything with parallel loops; list 1: one of each operation
    const char* (*name)(int i);
    int (*flags)(int i);                           // 1: may share its input tensors, 2: draws random numbers
    void* (*make)(int i, void* shareWith);         // objects for one execution; with the input tensors of another one
    void (*go)(void* job);
    const double* (*out)(void* job, int* n);
    void (*drop)(void* job);
    void (*seed)(unsigned s);
    void (*engine)(uintptr_t* at, size_t* bytes);
};
extern "C" const OpsApi* ops_api();

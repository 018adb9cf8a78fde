"""What each check builds. One entry per property; see DESIGN.md."""
STD_INCLUDES = "algorithm cassert cmath functional iostream limits memory numeric optional sstream stdexcept string vector".split()
DEFAULT_FLAGS = ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-Wno-psabi"]
FAST = ["-O2", "-g1", "-D_GLIBCXX_ASSERTIONS"]
SPECS = {}
def spec(id, level="model_checking", **kw):
    kw.setdefault("units", [{"src": [id.lower() + ".cpp"]}])
    kw["level"] = level
    SPECS[id] = kw

COMMON = ["g++ 13.3 with -O1 and the address and undefined-behaviour sanitizers compiles the code as the users' compilers do",
          "values outside the stated alphabets and sizes beyond the stated bounds are not covered"]
def std(id, **kw):
    kw.setdefault("assumptions", COMMON)
    spec(id, **kw)

for i in ["C%02d" % n for n in range(1, 28)]:
    std(i)

# C28, C29: the code under test is built into shared libraries whose memory accesses and parallel regions are
# handled by rt.cpp; nothing of the OpenMP or thread-sanitizer runtime is linked.
RT = ("rt.cpp", ["-O2", "-g1"], False)
TSAN = ["-O1", "-g1", "-fsanitize=thread", "-Wno-tsan", "-mstringop-strategy=libcall", "-Wno-psabi", "-ffp-contract=off"]
WRAPS = ["-Wl,--wrap=" + f for f in "memcpy memmove memset pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort".split()]
PLAIN = ["-O1", "-g1", "-Wno-psabi", "-ffp-contract=off"]
OMP_LIB = ("omp.so", [("ops.cpp", TSAN + ["-fopenmp"], True), RT], WRAPS)
USER_LIB = ("user.so", [("ops.cpp", TSAN, True), RT], WRAPS)
SEQ_LIB = ("seq.so", [("ops.cpp", PLAIN, True)], [])
std("C28", units=[{"src": ["c28.cpp"], "flags": ["-O1", "-g1"], "ld": ["-ldl", "-lpthread"], "libs": [OMP_LIB, SEQ_LIB]}],
    validation="the schedules are schedules of the real compiled parallel code; every run's results are compared with a sequential build",
    assumptions=["the compiler instruments every memory access that can be shared between threads (thread-sanitizer instrumentation of gcc 13.3 at -O1, library calls memcpy, memmove and memset included)",
                 "a region without conflicting accesses and without synchronization has one equivalence class of interleavings (Mazurkiewicz)",
                 "shapes, thread counts and operations beyond the stated bounds are not covered"])
std("C30", units=[{"src": ["c30.cpp"], "flags": FAST}])
std("C29", units=[{"src": ["c29.cpp"], "flags": ["-O1", "-g1"], "ld": ["-ldl", "-lpthread"], "libs": [USER_LIB, SEQ_LIB]}],
    validation="the groups of operations run on the real compiled code; every result is compared with a sequential build",
    assumptions=["the compiler instruments every memory access that can be shared between threads (thread-sanitizer instrumentation of gcc 13.3 at -O1, library calls memcpy, memmove and memset included); the standard library's own code inside libstdc++.so is not instrumented",
                 "a group without conflicting accesses and without synchronization has one equivalence class of interleavings (Mazurkiewicz)",
                 "operations, shapes and group sizes beyond the stated bounds are not covered"])
std("C31", units=[{"name": "enabled", "src": ["c31.cpp"], "extra": ["-DENABLE_LOGGING"]}, {"name": "disabled", "src": ["c31.cpp"]}])
# C34 replaces the program's allocator to make chosen allocations fail
std("C34", assumptions=COMMON + ["memory is taken with operator new (every container and smart pointer of the library does); memory taken inside libstdc++ with malloc does not fail"])
std("C33", units=[{"src": ["c33.cpp"], "flags": FAST}])
std("C35")
std("C36")
std("C37")
std("C38")

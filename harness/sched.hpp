// sched.hpp - runs jobs of an instrumented library under the controlled runtime and explores schedules.
#pragma once
#include "mc.hpp"
#include "ops.hpp"
#include <dlfcn.h>
#include <cmath>
#include <iostream>
#include <streambuf>
namespace sched {
struct Lib { std::string path; const OpsApi* ops = nullptr; const RtApi* rt = nullptr; };
inline std::string exeDir() { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); std::string s(b, n > 0 ? (size_t)n : 0); return s.substr(0, s.rfind('/')); }
inline Lib load(const std::string& name, bool runtime) {
    Lib l; l.path = exeDir() + "/" + name; void* h = dlopen(l.path.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "cannot load %s: %s\n", l.path.c_str(), dlerror()); _exit(3); }
    auto f = (const OpsApi* (*)())dlsym(h, "ops_api"); auto g = (const RtApi* (*)())dlsym(h, "rt_api"); if (!f || (runtime && !g)) { fprintf(stderr, "no entry points\n"); _exit(3); }
    l.ops = f(); if (g) l.rt = g(); return l;
}
inline std::string where(const Lib& l, uint64_t pc) { // source position of an instruction of the library
    Dl_info d; if (!dladdr((void*)pc, &d) || !d.dli_fbase) return "?"; char c[5000]; snprintf(c, sizeof c, "addr2line -Cfpie %s 0x%llx 2>/dev/null", l.path.c_str(), (unsigned long long)(pc - 1 - (uint64_t)d.dli_fbase));
    std::string r; FILE* f = popen(c, "r"); char b[4096]; while (f && fgets(b, sizeof b, f)) r += b; if (f) pclose(f); std::string t; for (char x : r) t += x == '\n' ? ' ' : x; return t;
}
inline std::string text(const Lib& l, const RtReport& r) { return std::string(r.text) + "\n    first:  " + where(l, r.pc[0]) + "\n    second: " + where(l, r.pc[1]); }
inline bool same(double a, double b, double rel, double scale) { return a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= rel * (std::fabs(b) + scale); }
inline void compare(const double* a, int na, const std::vector<double>& want, double rel, const std::string& w) {
    MC_CHECK(na == (int)want.size(), w << ": " << na << " values, expected " << want.size()); double scale = 0; for (double x : want) if (std::isfinite(x)) scale = std::max(scale, std::fabs(x)); scale = std::min(scale, 10.0);
    for (int i = 0; i < na; ++i) MC_CHECK(same(a[i], want[(size_t)i], rel, scale), w << ": value " << i << " is " << a[i] << ", sequentially " << want[(size_t)i]);
}
// Runs body() under the given schedule, then - only if synchronization operations made schedules inequivalent -
// all schedules with up to two deviations from the default, in order of their number.
struct Totals { uint64_t runs = 0, multi = 0, accesses = 0, locations = 0, syncs = 0, capped = 0; int maxThreads = 0; };
template <class B> void explore(const Lib& l, int threads, Totals& tot, int deviations, uint64_t cap, B body) {
    static RtReport r;
    auto once = [&](int rev, const std::vector<short>& p) { l.rt->begin(threads, rev, p.data(), (int)p.size()); body([&] { l.rt->end(&r); }, rev, p); ++tot.runs; tot.multi += r.multi; tot.accesses += r.accesses; tot.locations += r.locations; tot.syncs += r.syncs; tot.maxThreads = std::max(tot.maxThreads, r.maxThreads); if (r.race) MC_FAIL("with " << threads << " threads " << text(l, r)); if (r.diverged) { fprintf(stderr, "schedule diverged\n"); _exit(3); } mc::trace(); };
    once(0, {}); bool dep = r.syncs > 0; bool multi = r.multi > 0;
    if (multi) once(1, {});
    if (!dep && !(r.syncs > 0)) return;
    if (threads > 4) return; // schedules are explored for groups of up to four
    cap = std::min<uint64_t>(cap, 20 + 2000000 / (1 + r.accesses)); uint64_t runs = 0;
    for (int d = 1; d <= deviations; ++d) {
        std::vector<std::pair<std::vector<short>, int>> todo = {{{}, 0}};
        while (!todo.empty()) {
            auto p = todo.back(); todo.pop_back(); if (++runs > cap) { ++tot.capped; return; } // the cap is reported
            once(0, p.first); std::vector<std::pair<short, short>> log; for (int i = 0; i < r.nlog; ++i) log.push_back({r.log[i].n, r.log[i].taken});
            if (p.second >= d) continue;
            for (size_t i = p.first.size(); i < log.size(); ++i) for (short k = 1; k < log[i].first && (todo.size() + runs <= cap + 1); ++k) { std::vector<short> q; for (size_t j = 0; j < i; ++j) q.push_back(log[j].second); q.push_back(k); todo.push_back({q, p.second + 1}); }
        }
    }
}
inline void finish(const Totals& t) { mc::bound("synchronization operations met (each shard)", t.syncs); if (t.capped) mc::bound("schedules capped in cases", t.capped); mc::bound("thread groups run (one shard)", t.multi); mc::bound("accesses checked (one shard)", t.accesses); mc::bound("largest group of threads", t.maxThreads); }
struct Null : std::streambuf { int overflow(int c) override { return c; } };
inline void quiet() { static Null n; std::cout.rdbuf(&n); }
} // namespace sched

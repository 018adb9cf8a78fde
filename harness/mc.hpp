// mc.hpp - a small bounded exhaustive explorer.
//
// A harness defines  void explore();  and calls  mc::run(describe, body)  once per case, in a
// deterministic order that does not depend on the shard.  Every case is executed exactly once, by the
// shard  index % nshards.  Inside a body:
//   MC_CHECK(cond, "text" << streamable)   report a violation (the property is false in this case)
//   mc::step()                             one implementation operation executed and judged (a transition)
//   mc::state(h)                           a canonical hash of an observed implementation state
//   mc::trail(text)                        names the next operation (printed in --only mode, for replays)
// The index of the current case is kept in a shared mapping, so that a crash (sanitizer report, abort,
// hang) is attributed to its case by the runner, which replays it alone with --only.
#pragma once
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc {

struct Failure { std::string text; };

struct Global {
    long index = -1;          // index of the latest case met (all shards count alike)
    long shard = 0, nshards = 1, only = -1;
    bool thorough = false;
    unsigned seed = 1;
    std::string out;
    volatile long* live = nullptr; // shared mapping: current case
    volatile long tick = -1; volatile uint64_t tickSteps = 0; volatile int same = 0; int limitTicks = 12;
    uint64_t cases = 0, steps = 0, rejected = 0, traces = 0;
    std::unordered_set<uint64_t> states;
    std::unordered_set<uint64_t> outcomes;
    bool statesCapped = false;
    std::vector<std::string> samples;
    std::vector<std::pair<std::string, std::string>> bounds; // name -> value, for evidence
    uint64_t nextSample = 0;
};
inline Global& g() { static Global* x = new Global; return *x; }

inline bool thorough() { return g().thorough; }
inline bool verbose() { return g().only >= 0; }
inline void step(uint64_t n = 1) { g().steps += n; }
inline void trace(uint64_t n = 1) { g().traces += n; }
inline void rejectedOp() { ++g().rejected; }

inline uint64_t mix(uint64_t h, uint64_t x) {
    h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL; h ^= h >> 32;
    return h;
}
inline void state(uint64_t h) {
    auto& s = g().states;
    if (s.size() < 200000) s.insert(h); else if (!s.count(h)) g().statesCapped = true;
}
inline void outcome(uint64_t h) { auto& s = g().outcomes; if (s.size() < 100000) s.insert(h); }

inline void trail(const std::string& t) { if (verbose()) { fprintf(stdout, "  step: %s\n", t.c_str()); fflush(stdout); } }
#define MC_TRAIL(x) do { if (mc::verbose()) { std::ostringstream os_; os_ << x; mc::trail(os_.str()); } } while (0)

#define MC_CHECK(cond, x) do { if (!(cond)) { std::ostringstream os_; os_ << x; throw mc::Failure{os_.str()}; } } while (0)
#define MC_FAIL(x) MC_CHECK(false, x)

// true if f throws an exception (the library's documented way to reject)
template <class F> bool throws(F&& f) {
    try { f(); } catch (const Failure&) { throw; } catch (const std::exception&) { rejectedOp(); return true; }
    return false;
}

template <class K, class V> void bound(const K& k, const V& v) {
    std::ostringstream a, b; a << k; b << v;
    for (auto& p : g().bounds) if (p.first == a.str()) return;
    g().bounds.push_back({a.str(), b.str()});
}

inline std::string jsonEscape(const std::string& s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r;
}

inline void writeOut(const char* status, long failIndex, const std::string& desc, const std::string& text) {
    auto& G = g();
    if (G.out.empty()) return;
    std::ofstream h(G.out + ".states", std::ios::binary);
    for (uint64_t x : G.states) h.write(reinterpret_cast<const char*>(&x), 8);
    std::ofstream o(G.out + ".outcomes", std::ios::binary);
    for (uint64_t x : G.outcomes) o.write(reinterpret_cast<const char*>(&x), 8);
    h.close(); o.close();
    std::ofstream f(G.out + ".tmp");
    f << "{\"status\":\"" << status << "\",\"index\":" << failIndex << ",\"desc\":\"" << jsonEscape(desc)
      << "\",\"text\":\"" << jsonEscape(text) << "\",\"enumerated\":" << (G.index + 1) << ",\"cases\":" << G.cases
      << ",\"steps\":" << G.steps << ",\"rejected\":" << G.rejected << ",\"traces\":" << G.traces
      << ",\"states\":" << G.states.size()
      << ",\"outcomes\":" << G.outcomes.size() << ",\"states_capped\":" << (G.statesCapped ? "true" : "false") << ",\"samples\":[";
    for (size_t i = 0; i < G.samples.size(); ++i) f << (i ? "," : "") << "\"" << jsonEscape(G.samples[i]) << "\"";
    f << "],\"bounds\":{";
    for (size_t i = 0; i < G.bounds.size(); ++i)
        f << (i ? "," : "") << "\"" << jsonEscape(G.bounds[i].first) << "\":\"" << jsonEscape(G.bounds[i].second) << "\"";
    f << "}}\n";
    f.close();
    rename((G.out + ".tmp").c_str(), G.out.c_str()); // the file appears whole or not at all
}

[[noreturn]] inline void reportFailure(const std::string& desc, const std::string& text) {
    auto& G = g();
    printf("FAILED case %ld\n  case: %s\n  why:  %s\n", G.index, desc.c_str(), text.c_str());
    fflush(stdout);
    writeOut("failed", G.index, desc, text);
    _exit(10);
}

inline void onTick(int) {
    auto& G = g();
    if (G.tick == G.index && G.tickSteps == G.steps) { // neither a new case nor a new step
        if (++G.same >= G.limitTicks) {
            static const char m[] = "HANG: the current case does not finish\n";
            (void)!write(1, m, sizeof m - 1);
            _exit(77);
        }
    } else { G.tick = G.index; G.tickSteps = G.steps; G.same = 0; }
}

template <class D, class B> void run(D&& describe, B&& body) {
    auto& G = g();
    ++G.index;
    if (G.only >= 0) { if (G.index != G.only) return; }
    else if (G.index % G.nshards != G.shard) return;
    if (G.live) *G.live = G.index;
    ++G.cases;
    if (verbose()) { printf("case %ld: %s\n", G.index, std::string(describe()).c_str()); fflush(stdout); }
    std::string text;
    bool bad = false;
    try { body(); }
    catch (const Failure& f) { bad = true; text = f.text; }
    catch (const std::exception& e) { bad = true; text = std::string("unexpected exception: ") + e.what(); }
    catch (...) { bad = true; text = "unexpected exception of unknown type"; }
    if (bad) reportFailure(describe(), text);
    if (G.cases - 1 == G.nextSample) { if (G.samples.size() < 4) G.samples.push_back(describe()); G.nextSample = G.nextSample * 7 + 5; }
}

int mainImpl(int argc, char** argv);
} // namespace mc

void explore(); // the harness

#ifndef MC_NO_MAIN
int main(int argc, char** argv) {
    auto& G = mc::g();
    std::string live;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--shard") G.shard = atol(next().c_str());
        else if (a == "--nshards") G.nshards = atol(next().c_str());
        else if (a == "--only") G.only = atol(next().c_str());
        else if (a == "--out") G.out = next();
        else if (a == "--live") live = next();
        else if (a == "--limit") G.limitTicks = atoi(next().c_str());
    }
    if (const char* t = getenv("VERIF_TIER")) G.thorough = std::string(t) == "thorough";
    if (const char* s = getenv("VERIF_SEED")) G.seed = (unsigned)strtoul(s, nullptr, 10);
    if (!live.empty()) {
        int fd = open(live.c_str(), O_RDWR | O_CREAT, 0600);
        if (fd >= 0 && ftruncate(fd, 4096) == 0) {
            void* p = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (p != MAP_FAILED) { G.live = static_cast<volatile long*>(p); *G.live = -1; }
        }
    }
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = mc::onTick; sa.sa_flags = SA_RESTART;
    sigaction(SIGALRM, &sa, nullptr);
    struct itimerval tv; tv.it_interval.tv_sec = 2; tv.it_interval.tv_usec = 0; tv.it_value = tv.it_interval;
    setitimer(ITIMER_REAL, &tv, nullptr);
    explore();
    if (G.only >= 0 && G.cases == 0) { printf("no such case\n"); return 3; }
    mc::writeOut("ok", -1, "", "");
    fflush(stdout);
    return 0;
}
#endif

// C28: results are independent of the number of threads and their interleaving.
#include "sched.hpp"
using namespace sched;
void explore() {
    quiet(); Lib seq = load("seq.so", false), par = load("omp.so", true); bool full = mc::thorough(); int n = seq.ops->count(0, full), n2 = par.ops->count(0, full); if (n != n2) _exit(3);
    std::vector<int> ks = full ? std::vector<int>{1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 32} : std::vector<int>{1, 2, 3, 4, 8, 16};
    std::string k; for (int x : ks) k += " " + std::to_string(x);
    mc::bound("operations", std::to_string(n) + " (products, transposes, all layers forward/backward/update, optimizers, activations, losses, networks over swept shapes)"); mc::bound("threads", k.substr(1)); mc::bound("schedules", "threads in ascending and descending order; equivalent to all others when no conflict and no synchronization is met, else all with at most 2 deviations");
    Totals tot;
    for (int i = 0; i < n; ++i) { std::string name = seq.ops->name(i); mc::run([&] { return name; }, [&] {
        seq.ops->seed(7); void* j = seq.ops->make(i, nullptr); seq.ops->seed(8); seq.ops->go(j); int m; const double* o = seq.ops->out(j, &m); MC_CHECK(m >= 0, name << " is rejected"); std::vector<double> want(o, o + m); seq.ops->drop(j);
        double rel = name.rfind("float", 0) == 0 ? 2e-5 : 1e-12; if (name.find("net ") != std::string::npos) rel *= 50;
        uint64_t h = 5; for (double x : want) h = mc::mix(h, (uint64_t)(int64_t)(std::isfinite(x) ? x * 1e4 : 0)); mc::outcome(h);
        for (int t : ks) sched::explore(par, t, tot, 2, 400, [&](auto done, int rev, const std::vector<short>& p) {
            MC_TRAIL(name << " with " << t << " threads" << (rev ? " in descending order" : "") << (p.empty() ? "" : " and a prescribed schedule"));
            par.ops->seed(7); void* q = par.ops->make(i, nullptr); par.ops->seed(8); par.ops->go(q); int c; const double* r = par.ops->out(q, &c);
            compare(r, c, want, rel, name + " with " + std::to_string(t) + " threads" + (rev ? " in descending order" : "")); par.ops->drop(q); done(); mc::step(); mc::state(mc::mix(mc::mix((uint64_t)i * 64 + (uint64_t)t, h), (uint64_t)rev * 2 + !p.empty())); });
    }); }
    finish(tot);
}

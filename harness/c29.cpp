// C29: distinct objects can be used concurrently and shared ones read concurrently.
#include "sched.hpp"
using namespace sched;
struct Arg { const Lib* l; void* job[3]; };
static void body(void* p) { Arg* a = (Arg*)p; a->l->ops->go(a->job[a->l->rt->threadNum()]); }
void explore() {
    quiet(); Lib seq = load("seq.so", false), par = load("user.so", true); bool full = mc::thorough(); int n = seq.ops->count(1, full), n2 = par.ops->count(1, full); if (n != n2) _exit(3);
    uintptr_t at; size_t bytes; par.ops->engine(&at, &bytes); par.rt->ignore(at, bytes); // the random generator is the shared state that the property allows
    std::vector<std::vector<double>> want; std::vector<std::string> names; std::vector<int> fl; std::vector<double> rel;
    for (int i = 0; i < n; ++i) { names.push_back(seq.ops->name(i)); fl.push_back(seq.ops->flags(i)); rel.push_back(names.back().rfind("float", 0) == 0 ? 2e-5 : 1e-12); }
    auto expected = [&](int i) { if (want.empty()) want.resize((size_t)n); auto& w = want[(size_t)i]; if (w.empty()) { seq.ops->seed(7); void* j = seq.ops->make(i, nullptr); seq.ops->go(j); int m; const double* o = seq.ops->out(j, &m); MC_CHECK(m >= 0, names[(size_t)i] << " is rejected"); w.assign(o, o + m); seq.ops->drop(j); } return w; };
    mc::bound("operations", std::to_string(n) + " (tensor arithmetic, functions, reductions, products, reading, views, shapes, factories, activations, losses, layers, optimizers, whole models)");
    mc::bound("groups", "all ordered pairs of operations on distinct objects, all pairs (and triples i,j,i) of reading operations on the same tensors where their operands have the same shapes, three threads with each operation");
    mc::bound("schedules", "one after the other in both orders; equivalent to all interleavings when no conflict and no synchronization is met, else all with at most 2 deviations");
    Totals tot;
    auto shared = [&](int i, int j) { seq.ops->seed(7); void* a = seq.ops->make(i, nullptr); void* b = seq.ops->make(j, a); seq.ops->go(b); int m; const double* o = seq.ops->out(b, &m); std::vector<double> w(o, o + std::max(m, 0)); seq.ops->drop(b); seq.ops->drop(a); MC_CHECK(m >= 0, names[(size_t)j] << " is rejected"); return w; };
    auto signature = [&](int i) { std::istringstream in(names[(size_t)i]); std::string w, r; in >> r; while (in >> w) if (w.find_first_not_of("0123456789x") == std::string::npos) r += " " + w; return r; };
    auto group = [&](const std::vector<int>& is, bool share) {
        std::string w; for (int i : is) w += (w.empty() ? "" : " || ") + names[(size_t)i]; w += share ? " on the same tensors" : "";
        std::vector<std::vector<double>> ref; for (int i : is) ref.push_back(share ? shared(is[0], i) : expected(i));
        sched::explore(par, (int)is.size(), tot, 2, 300, [&](auto done, int rev, const std::vector<short>& p) {
            MC_TRAIL(w << (rev ? ", the last one first" : "") << (p.empty() ? "" : ", a prescribed schedule"));
            Arg a; a.l = &par; for (size_t k = 0; k < is.size(); ++k) { par.ops->seed(7); a.job[k] = par.ops->make(is[k], share && k ? a.job[0] : nullptr); } par.ops->seed(7);
            par.rt->parallel(body, &a, (unsigned)is.size()); bool random = false; for (int i : is) random |= (fl[(size_t)i] & 2) != 0;
            for (size_t k = 0; k < is.size(); ++k) { int c; const double* r = par.ops->out(a.job[k], &c); MC_CHECK(c >= 0, w << ": " << names[(size_t)is[k]] << " is rejected"); if (!random) compare(r, c, ref[k], rel[(size_t)is[k]], w + ": " + names[(size_t)is[k]]); }
            for (size_t k = is.size(); k--;) par.ops->drop(a.job[k]);
            done(); mc::step(is.size()); uint64_t h = share ? 99 : 3; for (int i : is) h = mc::mix(h, (uint64_t)i); mc::state(mc::mix(h, (uint64_t)rev));
        });
    };
    std::vector<int> base; for (int i = 0; i < n; ++i) base.push_back(i);
    for (int i = 0; i < n; ++i) mc::run([&] { return "distinct objects: " + names[(size_t)i] + " with every operation"; }, [&] { for (int j : base) group({i, j}, false); });
    for (int i = 0; i < n; ++i) if (fl[(size_t)i] & 1) mc::run([&] { return "same tensors: " + names[(size_t)i] + " by two and three threads"; }, [&] { for (int j : base) if ((fl[(size_t)j] & 1) && signature(i) == signature(j)) { group({i, j}, true); group({i, j, i}, true); } });
    for (int i = 0; i < n; ++i) mc::run([&] { return "three threads: " + names[(size_t)i]; }, [&] { group({i, i, i}, false); });
    finish(tot);
}

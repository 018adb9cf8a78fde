// C22: one optimizer serving several tensors treats each like an optimizer of its own; bad calls change nothing.
#include "opts.hpp"
#include <new>
// freed storage is handed out again at once, so that a new tensor meets the state of the one that lived there
extern "C" const char* __asan_default_options() { return "quarantine_size_mb=0:thread_local_quarantine_size_kb=0"; }
using namespace opts;
static std::vector<Opt> options() {
    std::vector<Opt> r; Opt s{SGD, 0.1}; s.momentum = 0.9; s.dampening = 0.25; s.wd = 0.1; r.push_back(s); s.nesterov = true; r.push_back(s); s.momentum = 0; s.nesterov = false; r.push_back(s);
    Opt m{RMS, 0.05}; m.alpha = 0.75; m.eps = 0.01; r.push_back(m); m.momentum = 0.5; m.centered = true; r.push_back(m); m.momentum = 0; m.wd = 0.1; r.push_back(m);
    Opt a{ADAM, 0.05}; r.push_back(a); a.b1 = 0.5; a.b2 = 0.75; a.eps = 0.1; a.l1 = 0.01; a.l2 = 0.1; a.decay = 0.1; a.batch = 2; r.push_back(a);
    return r;
}
// a fleet: three tensors served by one optimizer, each also served by an optimizer of its own
template <class T> struct Fleet {
    const Opt& o; std::unique_ptr<Optimizer<T>> shared, own[3]; Tensor<T> w[3], alone[3]; size_t n = 0;
    Fleet(const Opt& oo, const std::vector<Dims>& d) : o(oo), shared(make<T>(oo)), w{mk<T>(weights(d[0])), mk<T>(weights(d[1])), mk<T>(weights(d[2]))}, alone{mk<T>(weights(d[0])), mk<T>(weights(d[1])), mk<T>(weights(d[2]))} { for (auto& x : own) x = make<T>(oo); }
    Tensor<T> grad(int i) { return mk<T>(pat(rd(w[i]).d, 4, n * 3 + i)); }
    void update(const std::vector<int>& order, double lr) {
        std::vector<Tensor<T>> g; g.reserve(3); std::vector<Tensor<T>*> ws, gs; ++n;
        for (int i : order) { g.push_back(grad(i)); ws.push_back(&w[i]); gs.push_back(&g.back()); }
        std::vector<RT> before; for (auto& x : g) before.push_back(rd(x));
        call<T>(*shared, ws, gs, lr);
        for (size_t k = 0; k < order.size(); ++k) { expectExact(g[k], before[k], "gradient"); call<T>(*own[order[k]], {&alone[order[k]]}, {&g[k]}, lr); }
        check("after an update of " + vstr(order));
    }
    void check(const std::string& what) { for (int i = 0; i < 3; ++i) expectExact(w[i], rd(alone[i]), str(o) + ", " + what + ": tensor " + std::to_string(i) + " (expected: as with an optimizer of its own)"); }
    template <class F> void rejected(const std::string& what, F f) {
        MC_TRAIL(what); RT b[3] = {rd(w[0]), rd(w[1]), rd(w[2])};
        MC_CHECK(mc::throws(f), str(o) << ": " << what << " is accepted");
        for (int i = 0; i < 3; ++i) expectExact(w[i], b[i], str(o) + ": tensor " + std::to_string(i) + " after the rejected " + what);
    }
    uint64_t h() const { uint64_t x = 1; for (auto& t : w) x = mc::mix(x, hash(rd(t))); return x; }
};
static const std::vector<std::vector<int>> ORDERS = {{0}, {1}, {2}, {0, 1}, {1, 0}, {0, 2}, {2, 1}, {0, 1, 2}, {2, 0, 1}};
template <class T> void interleavings(const std::vector<Opt>& all, int L) {
    words(L, (int)ORDERS.size(), [&](const std::vector<int>& w) { mc::run([&] { return "update orders " + vstr(w) + (sizeof(T) == 4 ? " float" : " double"); }, [&] {
        for (auto& o : all) { Fleet<T> f(o, {{3}, {2, 2}, {1, 5}}); int k = 0; for (int c : w) { MC_TRAIL("update " << vstr(ORDERS[c])); f.update(ORDERS[c], ++k % 3 == 2 ? 0.3 : NONE); } mc::state(f.h()); }
    }); });
}
// rejected calls in the middle of a history
template <class T> void bad(const std::vector<Opt>& all) {
    std::vector<Dims> sizes = {{1}, {2}, {3}, {4}, {2, 2}, {5}, {6}, {2, 3}, {40}, {2000}};
    for (auto& o : all) for (int pre = 0; pre < 3; ++pre) for (int order = 0; order < (int)ORDERS.size(); ++order) mc::run([&] { return "rejected calls on " + vstr(ORDERS[order]) + " after " + std::to_string(pre) + " updates, " + str(o); }, [&] {
        Fleet<T> f(o, {{3}, {2, 2}, {1, 5}}); for (int k = 0; k < pre; ++k) f.update({0, 1, 2}, NONE);
        auto& od = ORDERS[order];
        for (size_t gN = 0; gN <= 4; ++gN) if (gN != od.size()) { std::vector<Tensor<T>> g; g.reserve(4); std::vector<Tensor<T>*> ws, gs; for (int i : od) ws.push_back(&f.w[i]); for (size_t k = 0; k < gN; ++k) { g.push_back(f.grad(od[k % od.size()])); gs.push_back(&g.back()); } f.rejected("call with " + std::to_string(ws.size()) + " tensors and " + std::to_string(gN) + " gradients", [&] { call<T>(*f.shared, ws, gs, NONE); }); }
        { std::vector<Tensor<T>> g; g.push_back(f.grad(0)); f.rejected("call with no tensors and 1 gradient", [&] { call<T>(*f.shared, {}, {&g[0]}, NONE); }); }
        for (size_t at = 0; at < od.size(); ++at) for (auto& d : sizes) if (prod(d) != rd(f.w[od[at]]).size()) for (double lr : {NONE, 0.5}) {
            std::vector<Tensor<T>> g; g.reserve(4); std::vector<Tensor<T>*> ws, gs; for (size_t k = 0; k < od.size(); ++k) { ws.push_back(&f.w[od[k]]); g.push_back(k == at ? mk<T>(pat(d, 0)) : f.grad(od[k])); gs.push_back(&g.back()); }
            f.rejected("gradient of shape " + ref::str(d) + " for tensor " + std::to_string(od[at]) + " in a call of " + vstr(od), [&] { call<T>(*f.shared, ws, gs, lr); });
        }
        call<T>(*f.shared, {}, {}, 0.5); f.check("after a call without tensors");
        f.update(od, NONE); f.update({0, 1, 2}, NONE); f.update({1}, 0.2); mc::state(f.h());
    });
}
// tensors that are replaced: by assignment, by reconstruction in place, by freeing and allocating again
static uint64_t reuse = 0;
template <class T> void lifetimes(const std::vector<Opt>& all, int L) {
    static const std::vector<Dims> D = {{1}, {3}, {4}, {2, 2}, {7}, {40}, {1500}};
    words(L, (int)D.size(), [&](const std::vector<int>& w) { mc::run([&] { return "successive shapes " + vstr(w); }, [&] {
        for (auto& o : all) for (int mode = 0; mode < 4; ++mode) for (int updates = 1; updates < 3; ++updates) {
            auto op = make<T>(o); alignas(Tensor<T>) unsigned char place[sizeof(Tensor<T>)]; Tensor<T>* t = nullptr; Tensor<T> other = mk<T>(weights({5})), ref5 = mk<T>(weights({5})); auto own = make<T>(o);
            std::unique_ptr<Tensor<T>> heap; std::vector<const void*> lived;
            for (size_t k = 0; k < w.size(); ++k) {
                const Dims& d = D[w[k]]; MC_TRAIL("mode " << mode << " shape " << ref::str(d));
                if (mode == 0) { if (!t) t = new (place) Tensor<T>(mk<T>(weights(d))); else *t = mk<T>(weights(d)); }            // move assignment
                if (mode == 1) { if (!t) t = new (place) Tensor<T>(mk<T>(weights(d))); else { Tensor<T> c = mk<T>(weights(d)); *t = c; } } // copy assignment
                if (mode == 2) { if (t) t->~Tensor<T>(); t = new (place) Tensor<T>(mk<T>(weights(d))); }                        // reconstruction
                if (mode == 3) { heap.reset(); heap.reset(new Tensor<T>(mk<T>(weights(d)))); }                                     // new object
                Tensor<T>& x = mode == 3 ? *heap : *t; const void* p = x.getData().data(); for (auto q : lived) if (q == p) { ++reuse; break; } lived.push_back(p);
                for (int u = 0; u < updates; ++u) {
                    Tensor<T> g = mk<T>(pat(d, 0, u)), g5 = mk<T>(pat({5}, 4, u + k));
                    RT b = rd(x); call<T>(*op, {&x, &other}, {&g, &g5}, NONE); call<T>(*own, {&ref5}, {&g5}, NONE);
                    RT a = rd(x); MC_CHECK(a.d == d, str(o) << ": shape became " << ref::str(a.d)); for (double v : a.v) MC_CHECK(std::isfinite(v), str(o) << ": weight " << v << " after replacing the tensor"); MC_CHECK(a.v != b.v, str(o) << ": the replaced tensor is not updated");
                    expectExact(other, rd(ref5), str(o) + ": the other tensor served");
                }
            }
            if (t) t->~Tensor<T>();
        }
    }); });
}
void explore() {
    auto all = options(); int L = mc::thorough() ? 5 : 3, M = mc::thorough() ? 5 : 3;
    mc::bound("optimizers", std::to_string(all.size()) + " option sets of SGD, RMSProp and Adam"); mc::bound("update calls", "all words of length " + std::to_string(L) + " over 9 ordered subsets of 3 tensors"); mc::bound("replacements", "all words of length " + std::to_string(M) + " over 7 shapes, 4 ways of replacing, 1 and 2 updates each"); mc::bound("bad calls", "every ordered subset with 0..4 gradients, and with one gradient of each of 10 shapes at each position, after 0..2 updates");
    // many tensors served by one optimizer: each is treated as by an optimizer of its own
    mc::bound("many tensors", "5, 17, 64, 129, 300 and 1100 tensors in one call, in calls of their own, and in overlapping groups, four rounds");
    for (int n : {5, 17, 64, 129, 300, 1100}) for (size_t q = 0; q < all.size(); q += n > 200 ? 3 : 1) mc::run([&] { return std::to_string(n) + " tensors, " + str(all[q]); }, [&] {
        auto op = make<double>(all[q]); std::vector<Tensor<double>> w, g, u; std::vector<std::unique_ptr<Optimizer<double>>> own; w.reserve(n); g.reserve(n); u.reserve(n);
        for (int i = 0; i < n; ++i) { Dims d = {1 + i % 3, 1 + i % 2}; w.push_back(mk<double>(pat(d, 4, i))); u.push_back(w.back()); g.push_back(mk<double>(pat(d, 4, i + 7))); own.push_back(make<double>(all[q])); }
        for (int r = 0; r < 4; ++r) {
            int group = r == 0 ? n : r == 1 ? 1 : r == 2 ? n / 2 + 1 : n;
            for (int a = 0; a < n; a += group) { std::vector<Tensor<double>*> ws, gs; for (int i = a; i < std::min(n, a + group); ++i) { ws.push_back(&w[i]); gs.push_back(&g[i]); } call<double>(*op, ws, gs, NONE); }
            for (int i = 0; i < n; ++i) { call<double>(*own[i], {&u[i]}, {&g[i]}, NONE); RT x = rd(w[i]), y = rd(u[i]); MC_CHECK(x.d == y.d, "shape"); for (size_t k = 0; k < x.size(); ++k) MC_CHECK(x.v[k] == y.v[k], str(all[q]) << ": tensor " << i << " of " << n << " is " << x.v[k] << " after round " << r + 1 << ", with an optimizer of its own " << y.v[k]); mc::step(); mc::state(hash(x)); }
        }
    });
    interleavings<double>(all, L); interleavings<float>(all, L - 1); bad<float>(all); if (mc::thorough()) bad<double>(all); lifetimes<float>(all, M); if (mc::thorough()) lifetimes<double>(all, 3);
    if (mc::g().only < 0 && mc::g().nshards <= 8 && reuse == 0) { fprintf(stderr, "no storage was ever reused\n"); _exit(2); }
}

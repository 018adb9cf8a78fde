// opts.hpp - reference optimizers: one parameter entry in double precision, with a bound on the rounding error
// that an evaluation in the tensor's element type may accumulate.
#pragma once
#include "ref.hpp"
#include "smart_dnn/Optimizers/AdamOptimizer.hpp"
#include "smart_dnn/Optimizers/RMSPropOptimizer.hpp"
#include "smart_dnn/Optimizers/SGDOptimizer.hpp"
#include <memory>
namespace opts {
using namespace ref; using namespace smart_dnn;
enum Kind { SGD, RMS, ADAM };
struct Opt { // options of all three kinds, as given (rounded to the element type by the reference)
    int kind; double lr; double momentum = 0, dampening = 0, wd = 0; bool nesterov = false;   // SGD, RMS
    double alpha = 0.99, eps = 1e-8; bool centered = false;                                   // RMS
    double b1 = 0.9, b2 = 0.999, l1 = 0, l2 = 0, decay = 0; int batch = 1;                    // Adam
};
inline std::string str(const Opt& o) {
    std::ostringstream s; s << (o.kind == SGD ? "SGD" : o.kind == RMS ? "RMSProp" : "Adam") << " rate " << o.lr;
    if (o.kind == SGD) s << " momentum " << o.momentum << " dampening " << o.dampening << " weight decay " << o.wd << (o.nesterov ? " Nesterov" : "");
    if (o.kind == RMS) s << " alpha " << o.alpha << " epsilon " << o.eps << " momentum " << o.momentum << " weight decay " << o.wd << (o.centered ? " centered" : "");
    if (o.kind == ADAM) s << " betas " << o.b1 << "," << o.b2 << " epsilon " << o.eps << " l1 " << o.l1 << " l2 " << o.l2 << " decay " << o.decay << " batch " << o.batch;
    return s.str();
}
template <class T> std::unique_ptr<Optimizer<T>> make(const Opt& o) {
    typedef std::unique_ptr<Optimizer<T>> P;
    if (o.kind == SGD) { SGDOptions<T> s; s.learningRate = T(o.lr); s.momentum = T(o.momentum); s.dampening = T(o.dampening); s.weightDecay = T(o.wd); s.nesterov = o.nesterov; return P(new SGDOptimizer<T>(s)); }
    if (o.kind == RMS) { RMSPropOptions<T> s; s.learningRate = T(o.lr); s.alpha = T(o.alpha); s.epsilon = T(o.eps); s.momentum = T(o.momentum); s.centered = o.centered; s.weightDecay = T(o.wd); return P(new RMSPropOptimizer<T>(s)); }
    AdamOptions<T> s; s.learningRate = T(o.lr); s.beta1 = T(o.b1); s.beta2 = T(o.b2); s.epsilon = T(o.eps); s.l1Strength = T(o.l1); s.l2Strength = T(o.l2); s.decay = T(o.decay); s.batchSize = o.batch; return P(new AdamOptimizer<T>(s));
}
// one entry of one parameter
struct Entry { double w = 0, err = 0, v = 0, ev = 0, s = 0, m = 0, mmax = 0, smax = 0; bool lost = false; };
template <class T> void step(const Opt& o, Entry& e, double g0, double override_, int t /* updates of this tensor, this one included */) {
    const double U = std::is_same<T, float>::value ? 1.2e-7 : 2.3e-16; auto R = [](double x) { return (double)T(x); };
    double lr = override_ > 0 ? R(override_) : R(o.lr);
    if (o.kind == SGD) {
        double g = g0 + R(o.wd) * e.w, eg = R(o.wd) * e.err + U * (std::fabs(g0) + R(o.wd) * std::fabs(e.w)) * 2;
        double st = g, es = eg;
        if (o.momentum != 0) { double k = 1 - R(o.dampening); e.ev = R(o.momentum) * e.ev + k * eg + U * 3 * (R(o.momentum) * std::fabs(e.v) + std::fabs(g)); e.v = R(o.momentum) * e.v + k * g; if (o.nesterov) { st = g + R(o.momentum) * e.v; es = eg + R(o.momentum) * e.ev; } else { st = e.v; es = e.ev; } es += U * 3 * (std::fabs(g) + std::fabs(e.v)); }
        e.err += lr * es + U * 2 * (std::fabs(e.w) + lr * std::fabs(st)); e.w -= lr * st; return;
    }
    if (o.kind == RMS) {
        double a = R(o.alpha), ep = R(o.eps), g = g0 + R(o.wd) * e.w, eg = R(o.wd) * e.err + U * 2 * (std::fabs(g0) + R(o.wd) * std::fabs(e.w));
        e.s = a * e.s + (1 - a) * g * g; e.smax = std::max(e.smax, e.s + std::fabs(eg * g) * 2); e.m = a * e.m + (1 - a) * g;
        double var = o.centered ? std::max(0.0, e.s - e.m * e.m) : e.s;
        double dv = (o.centered ? 12 : 6) * U * (o.centered ? std::max(e.s, e.m * e.m) + e.s : e.s) + 4 * std::fabs(eg * g) + 1e-300;
        double u = g / std::sqrt(var + ep), hi = std::fabs(g) / std::sqrt(std::max(var - dv, 0.0) + ep * (1 - 4 * U)), lo = std::fabs(g) / std::sqrt(var + dv + ep * (1 + 4 * U));
        double eu = (hi - lo) + eg / std::sqrt(std::max(var - dv, 0.0) + ep) + 4 * U * hi;
        double st = u, es = eu; if (o.momentum > 0) { e.ev = R(o.momentum) * e.ev + eu + 3 * U * (std::fabs(e.v) + std::fabs(u)); e.v = R(o.momentum) * e.v + u; st = e.v; es = e.ev; }
        e.err += lr * es + 2 * U * (std::fabs(e.w) + lr * std::fabs(st)); e.w -= lr * st; return;
    }
    if (!(override_ > 0) && o.decay > 0) lr = lr / (1 + R(o.decay) * t);
    double b1 = R(o.b1), b2 = R(o.b2), g = g0 / o.batch;
    e.m = b1 * e.m + (1 - b1) * g; e.s = b2 * e.s + (1 - b2) * g * g; e.mmax = std::max(b1 * e.mmax, 0.0) + (1 - b1) * std::fabs(g);
    double c1 = 1 - std::pow(b1, t), c2 = 1 - std::pow(b2, t), mh = e.m / c1, vh = e.s / c2, den = std::sqrt(vh) + R(o.eps), u = mh / den;
    double rel = 6 * U + U * t * 2 / c1 * std::pow(b1, t) + U * t / c2 * std::pow(b2, t) + U / c1 + U / c2;
    double eu = e.mmax / c1 / den * rel;
    double st = lr * u, es = lr * eu + 4 * U * std::fabs(st);
    if (o.l1 > 0) { if (std::fabs(e.w) <= e.err && e.err > 0) e.lost = true; double q = lr * R(o.l1) * (e.w > 0 ? 1 : e.w < 0 ? -1 : 0); st += q; es += 4 * U * std::fabs(q); }
    if (o.l2 > 0) { double q = lr * R(o.l2) * e.w; st += q; es += lr * R(o.l2) * e.err + 4 * U * std::fabs(q); }
    e.err += es + 2 * U * (std::fabs(e.w) + std::fabs(st)); e.w -= st;
}
// a parameter tensor served by an optimizer, with its reference
template <class T> struct Param {
    Tensor<T> w; std::vector<Entry> e; int t = 0; Dims d;
    Param(const RT& init) : w(mk<T>(init)), e(init.size()), d(init.d) { RT r = rounded<T>(init); for (size_t i = 0; i < e.size(); ++i) e[i].w = r.v[i]; }
    void advance(const Opt& o, const RT& g, double lr) { ++t; for (size_t i = 0; i < e.size(); ++i) step<T>(o, e[i], g.v[i], lr, t); }
    void judge(const std::string& what) const {
        RT r = rd(w); MC_CHECK(r.d == d, what << ": the weights have shape " << ref::str(r.d) << ", expected " << ref::str(d));
        for (size_t i = 0; i < e.size(); ++i) { if (e[i].lost || !(e[i].err < 1e9)) continue; double tol = 2 * e[i].err + 1e-300; if (!(std::isfinite(r.v[i]) && std::fabs(r.v[i] - e[i].w) <= tol)) { std::ostringstream s; s.precision(12); s << what << ": after " << t << " updates, weight " << i << " is " << r.v[i] << ", expected " << e[i].w << " (+- " << tol << ")"; MC_FAIL(s.str()); } }
        mc::step();
    }
};
template <class T> void call(Optimizer<T>& o, const std::vector<Tensor<T>*>& w, const std::vector<Tensor<T>*>& g, double lr) {
    std::vector<std::reference_wrapper<Tensor<T>>> a, b; for (auto* x : w) a.push_back(*x); for (auto* x : g) b.push_back(*x);
    if (std::isnan(lr)) o.optimize(a, b); else o.optimize(a, b, T(lr));
}
static const double NONE = NAN;
inline double eff(double lr) { return std::isnan(lr) ? -1 : lr; }

// run one history: entry j of the parameter receives gradient word j
template <class T> void run(const Opt& o, const Dims& d, const std::vector<double>& alphabet, int L, const std::vector<double>& lrs, const RT& init) {
    auto op = make<T>(o); Param<T> p(init); size_t n = prod(d), A = alphabet.size(), div = 1;
    for (int k = 0; k < L; ++k, div *= A) {
        RT g(d); for (size_t j = 0; j < n; ++j) g.v[j] = alphabet[(j / div) % A]; g = rounded<T>(g); Tensor<T> gt = mk<T>(g); double lr = lrs[k % lrs.size()];
        call<T>(*op, {&p.w}, {&gt}, lr); p.advance(o, g, eff(lr));
        MC_TRAIL("step " << k + 1 << " rate override " << lr); p.judge(str(o) + " on " + ref::str(d)); expectExact(gt, g, str(o) + ": the gradient");
    }
    mc::state(hash(rd(p.w)));
}
inline RT weights(const Dims& d) { static const double w[] = {1, -2, 0.25, 0, 3, -0.5, 0.0625}; RT r(d); for (size_t i = 0; i < r.size(); ++i) r.v[i] = w[(i * 5 + i / 7) % 7]; return r; }

// the exploration shared by the three rules
inline void explore(const std::vector<Opt>& all, const std::vector<double>& alphabet, const std::vector<double>& longAlphabet) {
    bool full = mc::thorough(); int L = full ? 6 : 4; size_t n = 1; for (int i = 0; i < L; ++i) n *= alphabet.size();
    std::vector<double> ov = {NONE, 0.25, 0, -3}; if (full) ov = {NONE, 0.25, 0};
    int OL = full ? 4 : 3;
    mc::bound("options", std::to_string(all.size()) + " combinations"); mc::bound("gradient histories", "all words of length " + std::to_string(L) + " over " + vstr(alphabet) + " (one per entry of a tensor of " + std::to_string(n) + " entries)"); mc::bound("rate overrides", "all words of length " + std::to_string(OL) + " over {none, 0.25, 0" + (full ? "}" : ", -3}"));
    for (auto& o : all) mc::run([&] { return str(o); }, [&] {
        words(OL, (int)ov.size(), [&](const std::vector<int>& w) { std::vector<double> lrs; for (int i : w) lrs.push_back(ov[i]); lrs.push_back(NONE); Dims d = {(int)n}; run<double>(o, d, alphabet, L, lrs, weights(d)); run<float>(o, d, alphabet, L, lrs, weights(d)); });
    });
    std::vector<double> tiny = {1e-3, -1e-7, 1e-12, -3e-20, 0}; mc::bound("small gradients", "all words of length 3 over " + vstr(tiny) + ", on weights 0 and of the size of the gradients");
    for (auto& o : all) mc::run([&] { return "small gradients, " + str(o); }, [&] { Dims d = {125}; RT z(d), s(d); for (size_t i = 0; i < 125; ++i) s.v[i] = tiny[(i * 3 + 1) % 5]; for (double lr : {NONE, 0.25}) { run<float>(o, d, tiny, 3, {lr}, z); run<double>(o, d, tiny, 3, {lr}, s); run<float>(o, d, tiny, 3, {lr}, s); } });
    std::vector<Dims> sh; shapes(4, 3, 24, [&](const Dims& d) { sh.push_back(d); }); for (int k : {31, 64, 65, 127, 128, 129, 255, 257, 999, 1000, 1001, 1023, 1024, 1025, 2000, 4097}) { sh.push_back({k}); sh.push_back({1, k}); if (k < 300) sh.push_back({k, 3}); }
    mc::bound("tensor shapes", "all shapes of rank 1..4 with extents 1..3, and sizes up to 4097 around powers of two and 1000");
    for (size_t q = 0; q < sh.size(); ++q) mc::run([&] { return "every option on " + ref::str(sh[q]); }, [&] { size_t k = 0; for (auto& o : all) { if (++k % 7 && prod(sh[q]) > 300) continue; run<float>(o, sh[q], alphabet, 3, {NONE, 0.25, NONE}, weights(sh[q])); if (k % 3 == 0) run<double>(o, sh[q], alphabet, 3, {NONE}, weights(sh[q])); } });
    std::vector<int> large = {16384, 65537, 131101, 262151}; if (full) large.push_back(1100017); mc::bound("large tensors", "16384 to " + std::to_string(large.back()) + " elements, every seventh option combination");
    for (int n : large) for (size_t q = n % 7; q < all.size(); q += 7) mc::run([&] { return std::to_string(n) + " elements, " + str(all[q]); }, [&] { run<float>(all[q], {n}, alphabet, 4, {NONE, 0.25, NONE}, weights({n})); if (q % 2) run<double>(all[q], {n / 2, 2}, alphabet, 4, {NONE}, weights({n / 2, 2})); });
    int longL = full ? 5000 : 1200; mc::bound("long histories", std::to_string(longL) + " steps for every option combination");
    for (auto& o : all) mc::run([&] { return "long history of " + str(o); }, [&] {
        auto op = make<double>(o); Dims d = {6}; Param<double> p(weights(d)); auto of = make<float>(o); Param<float> pf(weights(d));
        // options under which the exact recurrence itself diverges are followed while it is of moderate size
        auto moderate = [](const auto& q) { for (auto& x : q.e) if (!(std::fabs(x.w) < 1e12)) return false; return true; };
        for (int k = 0; k < longL && moderate(p) && moderate(pf); ++k) { RT g(d); for (int j = 0; j < 6; ++j) g.v[j] = longAlphabet[(size_t)(k * (j + 1) + j * 3 + k / 7) % longAlphabet.size()] * (j == 5 ? 0 : 1); double lr = k % 11 == 3 ? 0.125 : NONE; Tensor<double> gt = mk<double>(g); call<double>(*op, {&p.w}, {&gt}, lr); p.advance(o, g, eff(lr)); p.judge(str(o)); RT gr = rounded<float>(g); Tensor<float> gf = mk<float>(gr); call<float>(*of, {&pf.w}, {&gf}, lr); pf.advance(o, gr, eff(lr)); if (k < 60) pf.judge(str(o) + " (float)"); RT r = rd(pf.w); for (double x : r.v) MC_CHECK(std::isfinite(x), str(o) << ": weight not finite after " << k + 1 << " steps"); }
    });
    int veryLong = full ? 200000 : 70000; mc::bound("very long histories", std::to_string(veryLong) + " steps for every ninth option combination");
    for (size_t q = 0; q < all.size(); q += 9) mc::run([&] { return "very long history of " + str(all[q]); }, [&] {
        const Opt& o = all[q]; auto op = make<double>(o); Dims d = {2}; Param<double> p(weights(d)); Tensor<double> gt = mk<double>(RT(d)); RT g(d);
        for (int k = 0; k < veryLong && std::fabs(p.e[0].w) < 1e12 && std::fabs(p.e[1].w) < 1e12; ++k) { for (int j = 0; j < 2; ++j) gt.getData().data()[j] = g.v[j] = longAlphabet[(size_t)(k * (j + 1) + j * 3 + k / 7) % longAlphabet.size()]; call<double>(*op, {&p.w}, {&gt}, NONE); p.advance(o, g, -1); if (k % 61 == 0 || ((k + 2) & (k - 2)) < 4) p.judge(str(o) + ", very long history"); }
    });
}
} // namespace opts

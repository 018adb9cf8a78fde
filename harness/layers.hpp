// layers.hpp - reference layers in double precision, and a probe to read and set parameters of real layers.
#pragma once
#include "acts.hpp"
#include "smart_dnn/Layers/ActivationLayer.hpp"
#include "smart_dnn/Layers/Conv2DLayer.hpp"
#include "smart_dnn/Layers/FlattenLayer.hpp"
#include "smart_dnn/Layers/FullyConnectedLayer.hpp"
#include "smart_dnn/Regularisation/BatchNormalizationLayer.hpp"
#include "smart_dnn/Regularisation/DropoutLayer.hpp"
#include "smart_dnn/Regularisation/MaxPooling2DLayer.hpp"

namespace ref {
using smart_dnn::Layer;

// an optimizer that records what it is given; optionally lets the caller change the parameters
template <class T> struct Probe : smart_dnn::Optimizer<T> {
    typedef std::vector<std::reference_wrapper<Tensor<T>>> Refs;
    struct Entry { Tensor<T>* w; RT weight, grad; };
    std::vector<Entry> got; bool overrideSeen = false; int calls = 0;
    std::function<void(Tensor<T>&, const Tensor<T>&)> act;
    void optimize(const Refs& w, const Refs& g, T lr = T(-1)) override {
        ++calls; overrideSeen |= lr > 0;
        MC_CHECK(w.size() == g.size(), "the layer hands " << w.size() << " parameters and " << g.size() << " gradients to the optimizer");
        for (size_t i = 0; i < w.size(); ++i) { got.push_back({&w[i].get(), rd(w[i].get()), rd(g[i].get())}); if (act) act(w[i].get(), g[i].get()); }
    }
    // the recorded entry for the parameter that currently has these values (and this many elements)
    const Entry* find(const RT& value) const { const Entry* e = nullptr; for (auto& x : got) if (x.weight.v == value.v) { if (e) return e; e = &x; } return e; }
};

// A backward pass is linear in the upstream gradient, whatever its magnitude: scaled by a power of two, every gradient is scaled
// alike. fresh() gives the layer after its forward pass; the same random numbers are drawn each time.
template <class T, class F> void scaledUpstream(const std::string& nm, F fresh, const RT& u0) {
    RT u = rounded<T>(u0); bool f = std::is_same<T, float>::value;
    auto all = [&](int k) {
        auto l = fresh(); RT s = u; for (double& x : s.v) x = std::ldexp(x, k);
        std::vector<RT> r = {rd(static_cast<Layer<T>&>(*l).backward(mk<T>(s)))}; Probe<T> p; static_cast<Layer<T>&>(*l).updateWeights(p); for (auto& e : p.got) r.push_back(e.grad);
        return r;
    };
    std::vector<RT> one = all(0);
    for (int k : f ? std::vector<int>{-90, -50, -24, -1, 24, 50} : std::vector<int>{-700, -90, -24, 24, 300}) {
        std::vector<RT> g = all(k); MC_CHECK(g.size() == one.size(), nm << ": " << g.size() << " gradients");
        for (size_t i = 0; i < g.size(); ++i) { double big = 0; for (double x : one[i].v) big = std::max(big, std::fabs(x)); double t = std::ldexp(big, k) * (f ? 1e-5 : 1e-13);
            MC_CHECK(g[i].d == one[i].d, nm << ": gradient shapes " << str(g[i].d) << " and " << str(one[i].d));
            for (size_t q = 0; q < g[i].size(); ++q) MC_CHECK(std::fabs(g[i].v[q] - std::ldexp(one[i].v[q], k)) <= t, nm << ": with an upstream gradient 2^" << k << " times as large, " << (i ? "a parameter's" : "the input") << " gradient " << q << " is " << g[i].v[q] << " instead of " << std::ldexp(one[i].v[q], k)); }
        mc::step(); mc::state(mc::mix(ref::hash(one[0]), (uint64_t)(k + 1000)));
    }
}
// forward(2^k x) = 2^k forward(x), for layers whose map is homogeneous
template <class T, class F> void scaledInput(const std::string& nm, F layer, const RT& x0) {
    RT x = rounded<T>(x0); bool f = std::is_same<T, float>::value;
    auto fwd = [&](int k) { auto l = layer(); RT s = x; for (double& v : s.v) v = std::ldexp(v, k); return rd(static_cast<Layer<T>&>(*l).forward(mk<T>(s))); };
    RT one = fwd(0); double big = 0; for (double v : one.v) big = std::max(big, std::fabs(v));
    for (int k : f ? std::vector<int>{-90, -50, -24, -1, 24, 50} : std::vector<int>{-700, -90, -24, 24, 300}) {
        RT y = fwd(k); MC_CHECK(y.d == one.d, nm << ": shapes " << str(y.d) << " and " << str(one.d)); double t = std::ldexp(big, k) * (f ? 1e-5 : 1e-13);
        for (size_t q = 0; q < y.size(); ++q) MC_CHECK(std::fabs(y.v[q] - std::ldexp(one.v[q], k)) <= t, nm << ": for an input 2^" << k << " times as large, output " << q << " is " << y.v[q] << " instead of " << std::ldexp(one.v[q], k));
        mc::step(); mc::state(mc::mix(ref::hash(one), (uint64_t)(k + 3000)));
    }
}

struct RLayer {
    std::vector<RT> p, g;          // parameters and their gradients
    bool training = true;
    virtual ~RLayer() {}
    virtual bool accepts(const Dims&) const { return true; }
    virtual RT fwd(const RT& x) = 0;
    virtual RT bwd(const RT& up) = 0;
};

struct RFC : RLayer {
    RT x;
    RFC(RT w, RT b) { p = {w, b}; g = {RT(w.d), RT(b.d)}; }
    bool accepts(const Dims& d) const override { return (d.size() == 1 && d[0] == p[0].d[0]) || (d.size() == 2 && d[1] == p[0].d[0]); }
    RT fwd(const RT& in) override {
        x = in; int n = in.d.size() == 1 ? 1 : in.d[0], k = p[0].d[0], m = p[0].d[1];
        RT y(in.d.size() == 1 ? Dims{m} : Dims{n, m});
        for (int b = 0; b < n; ++b) for (int j = 0; j < m; ++j) { double s = p[1].v[j]; for (int i = 0; i < k; ++i) s += in.v[b * k + i] * p[0].v[i * m + j]; y.v[b * m + j] = s; }
        return y;
    }
    RT bwd(const RT& u) override {
        int n = x.d.size() == 1 ? 1 : x.d[0], k = p[0].d[0], m = p[0].d[1]; RT dx(x.d); g = {RT(p[0].d), RT(p[1].d)};
        for (int b = 0; b < n; ++b) for (int j = 0; j < m; ++j) { double q = u.v[b * m + j]; g[1].v[j] += q; for (int i = 0; i < k; ++i) { g[0].v[i * m + j] += x.v[b * k + i] * q; dx.v[b * k + i] += p[0].v[i * m + j] * q; } }
        return dx;
    }
};
struct RConv : RLayer {
    int ic, oc, kh, kw, s, pad, dil; RT x;
    RConv(RT w, RT b, int stride, int padding, int dilation) : ic(w.d[1]), oc(w.d[0]), kh(w.d[2]), kw(w.d[3]), s(stride), pad(padding), dil(dilation) { p = {w, b}; g = {RT(w.d), RT(b.d)}; }
    int out(int n, int k) const { int e = n + 2 * pad - dil * (k - 1) - 1; return e < 0 ? 0 : e / s + 1; }
    bool accepts(const Dims& d) const override { return d.size() == 4 && d[1] == ic && out(d[2], kh) > 0 && out(d[3], kw) > 0; }
    template <class F> void each(const Dims& yd, F f) {
        size_t o = 0;
        for (int b = 0; b < yd[0]; ++b) for (int q = 0; q < oc; ++q) for (int i = 0; i < yd[2]; ++i) for (int j = 0; j < yd[3]; ++j, ++o) for (int c = 0; c < ic; ++c) for (int u = 0; u < kh; ++u) for (int v = 0; v < kw; ++v) {
            int h = i * s + u * dil - pad, w = j * s + v * dil - pad;
            if (h >= 0 && h < x.d[2] && w >= 0 && w < x.d[3]) f(o, ((size_t)(b * ic + c) * x.d[2] + h) * x.d[3] + w, ((size_t)(q * ic + c) * kh + u) * kw + v);
        }
    }
    Dims ydims() const { return {x.d[0], oc, out(x.d[2], kh), out(x.d[3], kw)}; }
    RT fwd(const RT& in) override {
        x = in; RT y(ydims()); size_t plane = (size_t)y.d[2] * y.d[3];
        for (size_t o = 0; o < y.size(); ++o) y.v[o] = p[1].v[(o / plane) % oc];
        each(y.d, [&](size_t o, size_t i, size_t w) { y.v[o] += x.v[i] * p[0].v[w]; });
        return y;
    }
    RT bwd(const RT& up) override {
        g = {RT(p[0].d), RT(p[1].d)}; RT dx(x.d); size_t plane = (size_t)up.d[2] * up.d[3];
        for (size_t o = 0; o < up.size(); ++o) g[1].v[(o / plane) % oc] += up.v[o];
        each(up.d, [&](size_t o, size_t i, size_t w) { dx.v[i] += up.v[o] * p[0].v[w]; g[0].v[w] += up.v[o] * x.v[i]; });
        return dx;
    }
};
struct RPool : RLayer { // ties broken by the first position; tests with ties judge separately
    int k, s, pad; RT x;
    RPool(int pool, int stride, int padding) : k(pool), s(stride), pad(padding) {}
    int out(int n) const { int e = n + 2 * pad - k; return e < 0 ? 0 : e / s + 1; }
    bool accepts(const Dims& d) const override { return d.size() == 4 && out(d[2]) > 0 && out(d[3]) > 0; }
    template <class F> void window(size_t plane, int i, int j, F f) const { for (int u = 0; u < k; ++u) for (int v = 0; v < k; ++v) { int h = i * s + u - pad, w = j * s + v - pad; if (h >= 0 && h < x.d[2] && w >= 0 && w < x.d[3]) f((plane * x.d[2] + h) * x.d[3] + w); } }
    Dims ydims() const { return {x.d[0], x.d[1], out(x.d[2]), out(x.d[3])}; }
    size_t best(size_t pl, int i, int j) const { size_t b = (size_t)-1; window(pl, i, j, [&](size_t q) { if (b == (size_t)-1 || x.v[q] > x.v[b]) b = q; }); return b; }
    RT fwd(const RT& in) override { x = in; RT y(ydims()); size_t o = 0; for (int pl = 0; pl < y.d[0] * y.d[1]; ++pl) for (int i = 0; i < y.d[2]; ++i) for (int j = 0; j < y.d[3]; ++j) { size_t b = best(pl, i, j); y.v[o++] = b == (size_t)-1 ? 0 : x.v[b]; } return y; }
    RT bwd(const RT& up) override { RT dx(x.d); size_t o = 0; for (int pl = 0; pl < up.d[0] * up.d[1]; ++pl) for (int i = 0; i < up.d[2]; ++i) for (int j = 0; j < up.d[3]; ++j, ++o) { size_t b = best(pl, i, j); if (b != (size_t)-1) dx.v[b] += up.v[o]; } return dx; }
};
struct RFlat : RLayer {
    Dims d;
    bool accepts(const Dims& x) const override { return x.size() >= 2; }
    RT fwd(const RT& x) override { d = x.d; return RT({x.d[0], (int)(x.size() / x.d[0])}, x.v); }
    RT bwd(const RT& u) override { return RT(d, u.v); }
};
template <class T> struct RAct : RLayer {
    int k; RT x;
    RAct(int kind) : k(kind) {}
    bool accepts(const Dims& d) const override { return k != acts::NKINDS || d.size() >= 2; }
    RT fwd(const RT& in) override {
        x = in; RT y(in.d);
        if (k != acts::NKINDS) { for (size_t i = 0; i < in.size(); ++i) y.v[i] = acts::f<T, double>(k, in.v[i]); return y; }
        size_t n = in.d[0], w = in.size() / n;
        for (size_t b = 0; b < n; ++b) { double m = in.v[b * w], s = 0; for (size_t i = 0; i < w; ++i) m = std::max(m, in.v[b * w + i]); for (size_t i = 0; i < w; ++i) s += y.v[b * w + i] = std::exp(in.v[b * w + i] - m); for (size_t i = 0; i < w; ++i) y.v[b * w + i] /= s; }
        return y;
    }
    RT bwd(const RT& u) override {
        RT dx(x.d);
        if (k != acts::NKINDS) { for (size_t i = 0; i < x.size(); ++i) { double lo, hi; acts::df<T, double>(k, x.v[i], lo, hi); dx.v[i] = u.v[i] * lo; } return dx; }
        RT q = x, y = fwd(q); size_t n = x.d[0], w = x.size() / n;
        for (size_t b = 0; b < n; ++b) { double dot = 0; for (size_t i = 0; i < w; ++i) dot += y.v[b * w + i] * u.v[b * w + i]; for (size_t i = 0; i < w; ++i) dx.v[b * w + i] = y.v[b * w + i] * (u.v[b * w + i] - dot); }
        return dx;
    }
};
struct RBN : RLayer { // parameters gamma, beta; running mean and variance
    int c; double eps, mom; std::vector<double> rm, rv; RT xh; std::vector<double> inv; bool byBatch = true;
    RBN(int n, double e = 1e-5, double m = 0.9) : c(n), eps(e), mom(m), rm(n, 0), rv(n, 1) { p = {RT({1, n}, 1.0), RT({1, n}, 0.0)}; p[0] = RT({1, n}); for (double& x : p[0].v) x = 1; p[1] = RT({1, n}); g = p; }
    bool accepts(const Dims& d) const override { return (d.size() == 2 || d.size() == 4) && d[1] == c; }
    RT fwd(const RT& x) override {
        size_t sp = x.d.size() == 4 ? (size_t)x.d[2] * x.d[3] : 1; double N = (double)x.d[0] * sp;
        std::vector<double> m(c, 0), v(c, 0), is(c); auto ch = [&](size_t i) { return (i / sp) % c; };
        if (training) {
            for (size_t i = 0; i < x.size(); ++i) m[ch(i)] += x.v[i] / N;
            for (size_t i = 0; i < x.size(); ++i) { double q = x.v[i] - m[ch(i)]; v[ch(i)] += q * q / N; }
            for (int k = 0; k < c; ++k) { rm[k] = mom * rm[k] + (1 - mom) * m[k]; rv[k] = mom * rv[k] + (1 - mom) * v[k]; }
        } else { m = rm; v = rv; }
        for (int k = 0; k < c; ++k) is[k] = 1 / std::sqrt(v[k] + eps);
        RT h(x.d), y(x.d); for (size_t i = 0; i < x.size(); ++i) { h.v[i] = (x.v[i] - m[ch(i)]) * is[ch(i)]; y.v[i] = h.v[i] * p[0].v[ch(i)] + p[1].v[ch(i)]; }
        xh = h; inv = is; byBatch = training;
        return y;
    }
    RT bwd(const RT& u) override { // of the latest forward pass: in evaluation the statistics are constants
        size_t sp = u.d.size() == 4 ? (size_t)u.d[2] * u.d[3] : 1; double N = (double)u.d[0] * sp; auto ch = [&](size_t i) { return (i / sp) % c; };
        g = {RT({1, c}), RT({1, c})}; for (size_t i = 0; i < u.size(); ++i) { g[0].v[ch(i)] += u.v[i] * xh.v[i]; g[1].v[ch(i)] += u.v[i]; }
        RT dx(u.d); for (size_t i = 0; i < u.size(); ++i) { int k = (int)ch(i); dx.v[i] = p[0].v[k] * inv[k] * (byBatch ? u.v[i] - g[1].v[k] / N - xh.v[i] * g[0].v[k] / N : u.v[i]); }
        return dx;
    }
};
} // namespace ref

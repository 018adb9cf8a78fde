// C15: max pooling selects window maxima and routes gradients to them.
#include "layers.hpp"
using namespace ref; using namespace smart_dnn;

template <class T> std::unique_ptr<MaxPooling2DLayer<T>> mkPool(int k, int s, int p, int ctor) {
    typedef std::unique_ptr<MaxPooling2DLayer<T>> P;
    if (ctor == 1 && s == k && p == 0) return P(new MaxPooling2DLayer<T>(k));
    if (ctor == 1 && p == 0) return P(new MaxPooling2DLayer<T>(k, s));
    return P(new MaxPooling2DLayer<T>(k, s, p));
}
template <class T> struct Run {
    std::unique_ptr<MaxPooling2DLayer<T>> layer; RPool model; RT x; Dims yd; std::string nm;
    Run(int k, int s, int p, int ctor = 0) : layer(mkPool<T>(k, s, p, ctor)), model(k, s, p) { nm = "pool " + std::to_string(k) + " stride " + std::to_string(s) + " padding " + std::to_string(p); }
    void fwd(const RT& x0) {
        x = rounded<T>(x0); Tensor<T> t = mk<T>(x); Layer<T>& l = *layer; RT want = model.fwd(x); yd = want.d; MC_TRAIL("forward " << str(x));
        Tensor<T> y = l.forward(t); expectExact(y, want, nm + " of " + str(x)); expectExact(t, x, "input of the pooling"); t.getData().fill(T(777)); mc::state(hash(want));
    }
    RT back(const RT& u0) {
        RT u = rounded<T>(u0); Tensor<T> t = mk<T>(u); Layer<T>& l = *layer; MC_TRAIL("backward " << str(u)); Tensor<T> dx = l.backward(t); expectExact(t, u, "upstream of the pooling"); t.getData().fill(T(777));
        RT r = rd(dx); MC_CHECK(r.d == x.d, nm << ": the gradient of an input " << str(x.d) << " has shape " << str(r.d)); mc::step(); return r;
    }
    // decide to which position each window's gradient goes: window o sends 2^(o mod 20), in groups of 20
    void routes() {
        size_t n = prod(yd), W = 20; std::vector<size_t> to(n, (size_t)-1);
        for (size_t g = 0; g < n; g += W) {
            RT u(yd); for (size_t o = g; o < n && o < g + W; ++o) u.v[o] = (double)(1u << (o - g));
            RT r = back(u);
            for (size_t q = 0; q < r.size(); ++q) { double v = r.v[q]; MC_CHECK(v >= 0 && v == std::floor(v) && v < (double)(1u << W), nm << " of " << str(x) << ": gradient " << v << " at position " << q << " is not a sum of upstream values"); unsigned m = (unsigned)v;
                for (size_t b = 0; b < W; ++b) if (m >> b & 1) { size_t o = g + b; MC_CHECK(o < n && to[o] == (size_t)-1, nm << " of " << str(x) << ": the gradient of output " << o << " arrives at more than one position, or in excess"); to[o] = q; } }
        }
        size_t o = 0, planes = (size_t)yd[0] * yd[1];
        for (size_t pl = 0; pl < planes; ++pl) for (int i = 0; i < yd[2]; ++i) for (int j = 0; j < yd[3]; ++j, ++o) {
            MC_CHECK(to[o] != (size_t)-1, nm << " of " << str(x) << ": the gradient of output " << str(unflat(o, yd)) << " is lost");
            bool in = false; double best = -INFINITY; model.window(pl, i, j, [&](size_t q) { if (q == to[o]) in = true; best = std::max(best, x.v[q]); });
            MC_CHECK(in && x.v[to[o]] == best, nm << " of " << str(x) << ": the gradient of output " << str(unflat(o, yd)) << " goes to input position " << str(unflat(to[o], x.d)) << (in ? ", where the maximum is not attained" : ", outside its window"));
        }
        // a second upstream gradient goes the same way
        RT u = rounded<T>(pat(yd, 4, 3)), want(x.d); for (size_t k = 0; k < n; ++k) want.v[to[k]] += u.v[k];
        RT r = back(u); for (size_t q = 0; q < r.size(); ++q) MC_CHECK(close(r.v[q], want.v[q], Tol{1e-5, 1e-5}), nm << " of " << str(x) << ": gradient at " << q << " is " << r.v[q] << ", expected " << want.v[q]);
    }
    void reject(const Dims& d) { RT v = pat(d, 4); Tensor<T> t = mk<T>(v); MC_CHECK(mc::throws([&] { layer->forward(t); }), nm << " accepts an input of shape " << str(d)); expectExact(t, rounded<T>(v), "rejected input"); }
};
// values that make maxima sit anywhere: permutation-like, all negative, ties
static RT values(const Dims& d, int kind) { RT r(d); for (size_t i = 0; i < r.size(); ++i) switch (kind) { case 0: r.v[i] = (double)((i * 37 + 11) % 101) - 50; break; case 1: r.v[i] = -1 - (double)((i * 29 + 5) % 7); break; case 2: r.v[i] = (double)((i * 13) % 3); break; case 3: r.v[i] = -3.4028234663852886e38; break; default: r.v[i] = (double)i; } return r; }
void explore() {
    bool full = mc::thorough(); int H = full ? 7 : 5, K = full ? 5 : 4, S = full ? 5 : 4;
    mc::bound("geometries", "all input extents 1.." + std::to_string(H) + ", pool sizes 1.." + std::to_string(K) + ", strides 1.." + std::to_string(S) + ", paddings below the pool size, fitting or not, batches 1..2 and channels 1..2(3), five value patterns (ties, all negative, lowest finite value)");
    for (int k = 1; k <= K; ++k) for (int s = 1; s <= S; ++s) for (int p = 0; p < k && p <= 3; ++p) for (int h = 1; h <= H; ++h) {
        std::ostringstream nm; nm << "pool " << k << " stride " << s << " padding " << p << " height " << h;
        mc::run([&] { return nm.str(); }, [&] { for (int w = 1; w <= H; ++w) for (int b = 1; b <= 2; ++b) for (int c = 1; c <= (full ? 3 : 2); ++c) {
            Dims x{b, c, h, w}; Run<float> r(k, s, p, (h + w) % 2);
            MC_CHECK(mc::throws([&] { r.layer->backward(mk<float>(pat({b, c, 1, 1}, 0))); }), "backward before forward accepted");
            if (!r.model.accepts(x)) { r.reject(x); continue; }
            for (int v = 0; v < 5; ++v) { r.fwd(values(x, v)); r.routes(); }
            if (c == 2) { Run<double> z(k, s, p); z.fwd(values(x, 0)); z.routes(); z.fwd(values(x, 1)); z.routes(); }
        } });
    }
    // all two- and three-valued planes
    mc::bound("planes", "all 3x3 planes over {-1,0} and all 2x3 and 3x2 planes over {-2,-1,0}, pools 1..3, strides 1..2, all paddings below the pool");
    for (int k = 1; k <= 3; ++k) for (int s = 1; s <= 2; ++s) for (int p = 0; p < k; ++p) for (int first = 0; first < 9; ++first) {
        std::ostringstream nm; nm << "planes starting with code " << first << " under pool " << k << " stride " << s << " padding " << p;
        mc::run([&] { return nm.str(); }, [&] {
            if (first < 8) words(6, 2, [&](const std::vector<int>& w) { RT x({1, 1, 3, 3}); for (int i = 0; i < 3; ++i) x.v[i] = (first >> i & 1) - 1; for (int i = 0; i < 6; ++i) x.v[3 + i] = w[i] - 1; Run<float> r(k, s, p); if (r.model.accepts(x.d)) { r.fwd(x); r.routes(); } });
            words(4, 3, [&](const std::vector<int>& w) { for (int tall = 0; tall < 2; ++tall) { RT x(tall ? Dims{1, 1, 3, 2} : Dims{1, 1, 2, 3}); x.v[0] = first % 3 - 2; x.v[1] = first / 3 - 2; for (int i = 0; i < 4; ++i) x.v[2 + i] = w[i] - 2; Run<float> r(k, s, p); if (r.model.accepts(x.d)) { r.fwd(x); r.routes(); } } });
        });
    }
    // non-4-D inputs
    mc::run([&] { return std::string("inputs of other ranks"); }, [&] { for (int k = 1; k <= 3; ++k) { Run<float> r(k, k, 0, 1); shapes(3, 4, 64, [&](const Dims& d) { r.reject(d); }); shapesOfRank(5, 2, 32, [&](const Dims& d) { r.reject(d); }); } });
    for (Dims x : std::vector<Dims>{{1, 1, 26, 26}, {2, 3, 9, 17}, {5, 1, 16, 8}, {3, 8, 7, 7}, {17, 1, 4, 5}, {1, 33, 4, 4}, {1, 1, 33, 3}, {1, 1, 3, 65}, {4, 4, 6, 6}}) mc::run([&] { return "large input " + str(x); }, [&] { for (int k : {2, 3}) for (int s : {1, 2, 3}) for (int p : {0, 1}) { Run<float> r(k, s, p); r.fwd(values(x, 0)); r.routes(); r.fwd(values(x, 1)); r.routes(); } });
    int depth = full ? 7 : 6; mc::bound("histories", "all words of length " + std::to_string(depth) + " over {forward 1x1x3x3, forward 2x1x2x4, forward 1x2x4x2, backward}");
    words(depth, 4, [&](const std::vector<int>& w) { mc::run([&] { return "history " + vstr(w); }, [&] {
        static const Dims xs[3] = {{1, 1, 3, 3}, {2, 1, 2, 4}, {1, 2, 4, 2}}; Run<float> r(2, 1, 0, 1); bool f = false; size_t o = 0;
        for (int op : w) { if (op < 3) { r.fwd(map(pat(xs[op], 4, o += 3), [](double v) { return v - 2; })); f = true; } else if (f) r.routes(); else MC_CHECK(mc::throws([&] { r.layer->backward(mk<float>(pat({1, 1, 2, 2}, 0))); }), "backward before forward accepted"); }
    }); });
    mc::bound("magnitudes", "gradients and outputs scale with upstream gradients and inputs scaled by powers of two from 2^-90 to 2^50 (double: 2^-700 to 2^300)");
    for (int k = 1; k <= 3; ++k) for (int s = 1; s <= 3; ++s) for (int p = 0; p < k; ++p) mc::run([&] { return "magnitudes, pool " + std::to_string(k) + " stride " + std::to_string(s) + " padding " + std::to_string(p); }, [&] {
        auto go = [&](auto zero) { typedef decltype(zero) T; for (int v : {0, 1}) { RT x = rounded<T>(values({2, 2, 4, 5}, v)); RPool m(k, s, p); Dims yd = m.fwd(x).d; scaledUpstream<T>("pooling", [&] { auto l = mkPool<T>(k, s, p, 0); l->forward(mk<T>(x)); return l; }, pat(yd, 1, 2)); scaledInput<T>("pooling", [&] { return mkPool<T>(k, s, p, 0); }, x); } };
        go(0.0f); go(0.0);
    });
}

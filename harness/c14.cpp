// C14: Conv2D computes cross-correlation over all channels with exact gradients.
#include "layers.hpp"
using namespace ref; using namespace smart_dnn;

struct Cfg { int ic, oc, kh, kw, s, p, d; };
static std::string str(const Cfg& c) { std::ostringstream o; o << c.ic << "->" << c.oc << " channels, kernel " << c.kh << "x" << c.kw << ", stride " << c.s << ", padding " << c.p << ", dilation " << c.d; return o.str(); }
template <class T> Tol tol(double k) { return std::is_same<T, float>::value ? Tol{2e-6 * k, 2e-5} : Tol{1e-14 * k, 1e-12}; }

template <class T> struct Run {
    Conv2DLayer<T> layer; RConv model; Cfg c; bool probing = true; // hand every gradient to an optimizer that changes nothing
    Run(const Cfg& c, int kind) : layer(c.ic, c.oc, c.kh, c.kw, c.s, c.p, c.d), model(rounded<T>(pat({c.oc, c.ic, c.kh, c.kw}, kind, 2)), rounded<T>(map(pat({c.oc, 1}, 0, 5), [](double x) { return x / 8 - 0.3; })), c.s, c.p, c.d), c(c) { set(); }
    Run(int ic, int oc, int k, int kind) : layer(ic, oc, k), model(rounded<T>(pat({oc, ic, k, k}, kind, 2)), rounded<T>(pat({oc, 1}, 4, 5)), 1, 0, 1), c{ic, oc, k, k, 1, 0, 1} { set(); }
    void set() {
        MC_CHECK(rd(layer.getWeights()).d == model.p[0].d, "initial weights of " << ::str(c) << " have shape " << str(rd(layer.getWeights()).d)); MC_CHECK(rd(layer.getBiases()).size() == model.p[1].size(), "initial biases of " << ::str(c) << " have shape " << str(rd(layer.getBiases()).d));
        layer.setWeights(mk<T>(model.p[0])); layer.setBiases(mk<T>(model.p[1]));
    }
    Dims yd;
    void fwd(const RT& x0) {
        RT x = rounded<T>(x0); Tensor<T> t = mk<T>(x); Layer<T>& l = layer; MC_TRAIL("forward " << str(x.d));
        RT want = model.fwd(x); yd = want.d; Tensor<T> y = l.forward(t); expect(y, want, ::str(c) + ": forward of " + str(x.d), tol<T>(40.0 * c.ic * c.kh * c.kw)); mc::state(hash(rd(y)));
        expectExact(t, x, "the input of forward"); t.getData().fill(T(-777));
    }
    void bwd(int kind, size_t off) {
        RT u = rounded<T>(pat(yd, kind, off)); Tensor<T> t = mk<T>(u); Layer<T>& l = layer; MC_TRAIL("backward " << str(u.d));
        RT want = model.bwd(u); Tensor<T> dx = l.backward(t); double n = (double)u.size() / c.oc;
        expect(dx, want, ::str(c) + ": input gradient for input " + str(want.d), tol<T>(40.0 * c.oc * c.kh * c.kw)); expectExact(t, u, "the upstream gradient"); mc::state(hash(rd(dx)));
        t.getData().fill(T(-777));
        if (!probing) { check(rd(layer.getWeightGradients()), model.g[0], "getWeightGradients", n); check(rd(layer.getBiasGradients()), model.g[1], "getBiasGradients", n); mc::step(); return; }
        Probe<T> pr; l.updateWeights(pr); MC_CHECK(pr.got.size() == 2 && !pr.overrideSeen, "updateWeights hands " << pr.got.size() << " parameters to the optimizer");
        bool a = false, b = false;
        for (auto& e : pr.got) {
            bool isW = e.weight == model.p[0]; if (!isW) MC_CHECK(e.weight.v == model.p[1].v, "the optimizer is given a parameter " << str(e.weight) << " that is neither the weights nor the biases");
            (isW ? a : b) = true; check(e.grad, model.g[isW ? 0 : 1], isW ? "weight gradient" : "bias gradient", n);
        }
        MC_CHECK(a && b, "the optimizer is not given both parameters");
        check(rd(layer.getWeightGradients()), model.g[0], "getWeightGradients", n); check(rd(layer.getBiasGradients()), model.g[1], "getBiasGradients", n); mc::step();
    }
    void check(const RT& got, const RT& want, const char* w, double n) {
        MC_CHECK(got.size() == want.size(), ::str(c) << ": " << w << " has shape " << str(got.d) << ", expected " << str(want.d));
        for (size_t i = 0; i < got.size(); ++i) MC_CHECK(close(got.v[i], want.v[i], tol<T>(40 * n)), ::str(c) << ", input " << str(model.x.d) << ": " << w << " entry " << i << " is " << got.v[i] << ", expected " << want.v[i] << "; got " << str(got) << ", expected " << str(want));
    }
    void update() {
        Probe<T> pr; pr.act = [](Tensor<T>& w, const Tensor<T>&) { for (size_t i = 0; i < w.getShape().size(); ++i) w.getData().data()[i] += T(0.5) * T((i % 3) + 1); };
        layer.updateWeights(pr); MC_TRAIL("update");
        for (auto& q : model.p) for (size_t i = 0; i < q.size(); ++i) q.v[i] = (double)(T(q.v[i]) + T(0.5) * T((i % 3) + 1));
        MC_CHECK(rd(layer.getWeights()).v == model.p[0].v && rd(layer.getBiases()).v == model.p[1].v, "the optimizer's change of the parameters is not visible in the layer");
    }
    void set(bool weights, size_t o) { RT q = rounded<T>(pat(model.p[weights ? 0 : 1].d, 4, o)); Tensor<T> t = mk<T>(q); MC_TRAIL("set " << (weights ? "weights" : "biases")); if (weights) layer.setWeights(t); else layer.setBiases(t); model.p[weights ? 0 : 1] = q; t.getData().fill(T(-777)); MC_CHECK(rd(layer.getWeights()).v == model.p[0].v && rd(layer.getBiases()).v == model.p[1].v, "the parameters that were set are not those of the layer"); }
    void reject(const Dims& d) { RT x = pat(d, 4); Tensor<T> t = mk<T>(x); MC_CHECK(mc::throws([&] { layer.forward(t); }), ::str(c) << ": input " << str(d) << " accepted although the kernel does not fit"); expectExact(t, rounded<T>(x), "rejected input"); }
};
void explore() {
    bool full = mc::thorough();
    int H = full ? 6 : 5, S = 3, P = full ? 3 : 2, D = full ? 3 : 2, K = full ? 4 : 3;
    mc::bound("geometries", "all input extents 1.." + std::to_string(H) + " (height and width), kernel extents 1.." + std::to_string(K) + ", strides 1..3, paddings 0.." + std::to_string(P) + ", dilations 1.." + std::to_string(D) + ", fitting or not, each with a cycling choice of 8 (batch, in, out channel) combinations (all of them in the thorough tier)");
    const int bc[8][3] = {{1, 1, 1}, {2, 2, 2}, {1, 3, 2}, {3, 1, 3}, {2, 1, 1}, {1, 2, 1}, {1, 1, 2}, {2, 3, 4}};
    size_t turn = 0;
    for (int kh = 1; kh <= K; ++kh) for (int kw = 1; kw <= K; ++kw) for (int s = 1; s <= S; ++s) for (int p = 0; p <= P; ++p) for (int d = 1; d <= D; ++d) for (int h = 1; h <= H; ++h) {
        size_t t0 = turn++; std::ostringstream nm; nm << "kernel " << kh << "x" << kw << " stride " << s << " padding " << p << " dilation " << d << " height " << h;
        mc::run([&] { return nm.str(); }, [&] {
            for (int w = 1; w <= H; ++w) for (int q = 0; q < 8; ++q) {
                if (!full && q != (int)((t0 + w) % 8) && q != (int)((t0 * 3 + w + 1) % 8)) continue;
                Cfg c{bc[q][1], bc[q][2], kh, kw, s, p, d}; Dims x{bc[q][0], c.ic, h, w};
                Run<float> r(c, 4); if (!r.model.accepts(x)) { r.reject(x); continue; }
                r.fwd(pat(x, 4)); r.bwd(1, 3); r.fwd(pat(x, 1, 5)); r.bwd(4, 1); r.bwd(1, 7);
                if (q % 3 == 0) { Run<double> z(c, 1); z.fwd(pat(x, 4, 2)); z.bwd(4, 5); }
            }
        });
    }
    // channels and batches
    int C = full ? 4 : 3;
    mc::bound("channels", "all batch sizes 1..3 and channel counts 1.." + std::to_string(C) + " for the square-kernel constructor with kernel 1..3 and inputs 3x4, 4x3 and 1x1 to 3x3");
    for (int ic = 1; ic <= C; ++ic) for (int oc = 1; oc <= C; ++oc) for (int b = 1; b <= 3; ++b) for (int k = 1; k <= 3; ++k) {
        std::ostringstream nm; nm << "square kernel " << k << ", batch " << b << ", " << ic << "->" << oc;
        mc::run([&] { return nm.str(); }, [&] {
            for (Dims hw : std::vector<Dims>{{3, 4}, {4, 3}, {k, k}, {k, k + 1}}) { Dims x{b, ic, hw[0], hw[1]}; Run<float> r(ic, oc, k, 4); r.layer.setTrainingMode(k % 2); if (!r.model.accepts(x)) { r.reject(x); continue; } MC_CHECK(mc::throws([&] { r.layer.backward(mk<float>(pat({b, oc, 1, 1}, 0))); }), "backward before forward accepted"); r.fwd(pat(x, 4)); r.bwd(1, 3); r.update(); r.fwd(pat(x, 2)); r.bwd(4, 2); Run<double> z(ic, oc, k, 1); z.fwd(pat(x, 4)); z.bwd(4, 3); }
            Run<float> r(ic, oc, k, 4); for (int h = 1; h < k; ++h) { r.reject({b, ic, h, 5}); r.reject({b, ic, 5, h}); }
        });
    }
    for (Dims x : std::vector<Dims>{{1, 1, 28, 28}, {2, 2, 9, 17}, {5, 1, 16, 8}, {1, 8, 7, 7}, {17, 1, 4, 5}, {1, 1, 33, 3}, {1, 1, 3, 65}, {1, 17, 3, 3}}) mc::run([&] { return "large input " + str(x); }, [&] { for (int oc : {1, 5, 9, 17}) { if (oc > 5 && x[2] > 20) continue; Run<float> r(x[1], oc, 3, 4); r.fwd(pat(x, 4)); r.bwd(4, 3); Run<double> z(Cfg{x[1], oc, 3, 3, 2, 1, 1}, 4); z.fwd(pat(x, 4)); z.bwd(4, 3); } });
    mc::bound("large pictures", "one channel of 300x300, 3x40000 and 40000x2, 2000 samples of 5x5, 100 channels");
    for (Dims x : std::vector<Dims>{{1, 1, 300, 300}, {1, 1, 3, 40000}, {1, 1, 40000, 2}, {2000, 1, 5, 5}, {1, 100, 6, 6}, {2, 3, 100, 90}}) mc::run([&] { return "large picture " + str(x); }, [&] { for (int oc : {1, 3}) { Run<double> z(Cfg{x[1], oc, 2, 2, 1, 0, 1}, 4); z.fwd(pat(x, 4)); z.bwd(4, 3); Run<double> y(Cfg{x[1], oc, 3, 2, 2, 1, 1}, 4); y.fwd(pat(x, 4)); y.bwd(4, 3); } });
    // histories over inputs of changing size
    int depth = full ? 6 : 5;
    mc::bound("histories", "all words of length " + std::to_string(depth) + " over {forward 3x3, forward 2 samples 2x4, forward 4x2, backward, update, set weights, set biases}");
    words(depth, 7, [&](const std::vector<int>& w) { mc::run([&] { return "history " + vstr(w); }, [&] {
        static const Dims xs[3] = {{1, 2, 3, 3}, {2, 2, 2, 4}, {1, 2, 4, 2}}; for (int probing = 0; probing < 2; ++probing) { Run<float> r(Cfg{2, 2, 2, 2, 1, 0, 1}, 4); r.probing = probing; bool f = false, g = false, fresh = false; size_t o = 0;
        for (int op : w) { if (op < 3) { r.fwd(pat(xs[op], 4, o += 3)); f = fresh = true; } else if (op == 3) { if (f) { if (fresh) { r.bwd(1, o += 5); g = true; } } else MC_CHECK(mc::throws([&] { r.layer.backward(mk<float>(pat({1, 2, 2, 2}, 0))); }), "backward before forward accepted"); } else if (op > 4) { r.set(op == 5, o += 7); fresh = false; } else { if (g) { r.update(); fresh = false; } else MC_CHECK(mc::throws([&] { Probe<float> p; r.layer.updateWeights(p); }), "update before backward accepted"); } } }
    }); });
    mc::bound("magnitudes", "gradients and outputs scale with upstream gradients and inputs scaled by powers of two from 2^-90 to 2^50 (double: 2^-700 to 2^300)");
    for (int q = 0; q < 8; ++q) for (int g = 0; g < 4; ++g) mc::run([&] { return "magnitudes, channels " + std::to_string(q) + ", geometry " + std::to_string(g); }, [&] {
        static const int geo[4][5] = {{1, 1, 1, 0, 1}, {2, 3, 1, 0, 1}, {3, 2, 2, 1, 1}, {2, 2, 1, 2, 2}}; Cfg c{bc[q][1], bc[q][2], geo[g][0], geo[g][1], geo[g][2], geo[g][3], geo[g][4]};
        auto go = [&](auto zero) { typedef decltype(zero) T; RT x = rounded<T>(pat({bc[q][0], c.ic, 4, 5}, 4, 1));
            auto mkl = [&](double bias) { auto l = std::make_unique<Conv2DLayer<T>>(c.ic, c.oc, c.kh, c.kw, c.s, c.p, c.d); l->setWeights(mk<T>(pat({c.oc, c.ic, c.kh, c.kw}, 4, 2))); l->setBiases(mk<T>(RT(rd(l->getBiases()).d, bias))); return l; };
            RConv m(RT({c.oc, c.ic, c.kh, c.kw}), RT({c.oc, 1}), c.s, c.p, c.d); Dims yd = m.fwd(x).d;
            scaledUpstream<T>(::str(c), [&] { auto l = mkl(0.5); l->forward(mk<T>(x)); return l; }, pat(yd, 1, 2)); scaledInput<T>(::str(c) + " without bias", [&] { return mkl(0); }, x); };
        go(0.0f); go(0.0);
    });
    // wide dilations: taps far apart, most of them in the padding
    int WD = full ? 6 : 4; mc::bound("wide geometries", "kernels 1..3 x 1..3 with dilations 3.." + std::to_string(WD) + ", paddings {0,1,3,4,6}, strides {1,2,4}, extents 5 to 9");
    for (int kh = 1; kh <= 3; ++kh) for (int kw = 1; kw <= 3; ++kw) for (int d = 3; d <= WD; ++d) for (int p : {0, 1, 3, 4, 6}) for (int s : {1, 2, 4}) { std::ostringstream nm; nm << "kernel " << kh << "x" << kw << " stride " << s << " padding " << p << " dilation " << d; mc::run([&] { return nm.str(); }, [&] {
        for (Dims hw : std::vector<Dims>{{5, 9}, {7, 6}, {9, 5}, {1, 8}}) { Cfg c{1 + p % 2, 1 + s % 2, kh, kw, s, p, d}; Dims x{1 + d % 2, c.ic, hw[0], hw[1]}; Run<float> r(c, 4); if (!r.model.accepts(x)) { r.reject(x); continue; } r.fwd(pat(x, 4)); r.bwd(1, 3); r.fwd(pat(x, 1, 5)); r.bwd(4, 1); }
    }); }
}

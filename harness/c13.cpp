// C13: fully connected layers compute the affine map and its exact gradients.
#include "layers.hpp"
using namespace ref; using namespace smart_dnn;

template <class T> Tol tol(double k) { return std::is_same<T, float>::value ? Tol{2e-6 * k, 2e-5} : Tol{1e-14 * k, 1e-12}; }
template <class T> struct Run {
    FullyConnectedLayer<T> layer; RFC model; Tensor<T>*wp = nullptr, *bp = nullptr; int in, out; bool probing = true; // hand every gradient to an optimizer that changes nothing
    Run(int i, int o, int kind) : layer(i, o), model(rounded<T>(pat({i, o}, kind, 3)), rounded<T>(pat({1, o}, 4, 5))), in(i), out(o) { layer.setWeights(mk<T>(model.p[0])); layer.setBiases(mk<T>(model.p[1])); }
    void fwd(const RT& x0) {
        RT x = rounded<T>(x0); Tensor<T> t = mk<T>(x); RT want = model.fwd(x); Layer<T>& l = layer; MC_TRAIL("forward " << str(x));
        { Tensor<T> y = l.forward(t); expect(y, want, "forward of " + str(x), tol<T>(40.0 * in)); mc::state(hash(rd(y))); }
        expectExact(t, x, "the input of forward"); t.getData().fill(T(-777)); // the caller may reuse its tensor
    }
    void bwd(const RT& u0) {
        RT u = rounded<T>(u0); Tensor<T> t = mk<T>(u); RT want = model.bwd(u); Layer<T>& l = layer; MC_TRAIL("backward " << str(u));
        Tensor<T> dx = l.backward(t); double n = (double)u.size() / out;
        expect(dx, want, "input gradient for upstream " + str(u), tol<T>(40.0 * out)); expectExact(t, u, "the upstream gradient"); mc::state(hash(rd(dx)));
        t.getData().fill(T(-777));
        if (!probing) { check(rd(layer.getWeightGradients()), model.g[0], "getWeightGradients", n); check(rd(layer.getBiasGradients()), model.g[1], "getBiasGradients", n); mc::step(); return; }
        Probe<T> pr; l.updateWeights(pr);
        MC_CHECK(pr.got.size() == 2 && !pr.overrideSeen, "updateWeights hands " << pr.got.size() << " parameters to the optimizer, expected 2");
        bool a = false, b = false;
        for (auto& e : pr.got) {
            bool isW = e.weight == model.p[0] && !(a && e.weight == model.p[1]); if (e.weight == model.p[0] && e.weight == model.p[1]) isW = !a;
            if (isW) { a = true; if (wp) MC_CHECK(wp == e.w, "the weight tensor given to the optimizer moves"); wp = e.w; check(e.grad, model.g[0], "weight gradient", n); }
            else { b = true; MC_CHECK(e.weight == model.p[1], "the optimizer is given a parameter with values " << str(e.weight) << ", neither the weights nor the biases"); bp = e.w; check(e.grad, model.g[1], "bias gradient", n); }
        }
        MC_CHECK(a && b, "the optimizer is not given both parameters");
        check(rd(layer.getWeightGradients()), model.g[0], "getWeightGradients", n); check(rd(layer.getBiasGradients()), model.g[1], "getBiasGradients", n);
        mc::step();
    }
    void check(const RT& got, const RT& want, const char* w, double n) {
        MC_CHECK(got.size() == want.size(), w << " has shape " << str(got.d) << ", expected " << str(want.d));
        for (size_t i = 0; i < got.size(); ++i) MC_CHECK(close(got.v[i], want.v[i], tol<T>(40 * n)), w << ": entry " << i << " is " << got.v[i] << ", expected " << want.v[i] << "; got " << str(got) << ", expected " << str(want));
    }
    // the optimizer changes the parameters in place: the next pass must use the new ones
    void update() {
        Probe<T> pr; pr.act = [](Tensor<T>& w, const Tensor<T>&) { for (size_t i = 0; i < w.getShape().size(); ++i) w.getData().data()[i] += T(0.5) * T((i % 3) + 1); };
        layer.updateWeights(pr); MC_TRAIL("update");
        for (auto& q : model.p) for (size_t i = 0; i < q.size(); ++i) q.v[i] = (double)(T(q.v[i]) + T(0.5) * T((i % 3) + 1));
        expectExact(layer.getWeights(), model.p[0], "weights after the update"); expectExact(layer.getBiases(), model.p[1], "biases after the update");
    }
    void set(bool weights, size_t o) { RT q = rounded<T>(pat(model.p[weights ? 0 : 1].d, 4, o)); Tensor<T> t = mk<T>(q); MC_TRAIL("set " << (weights ? "weights" : "biases")); if (weights) layer.setWeights(t); else layer.setBiases(t); model.p[weights ? 0 : 1] = q; t.getData().fill(T(-777)); expectExact(layer.getWeights(), model.p[0], "weights after setting"); expectExact(layer.getBiases(), model.p[1], "biases after setting"); }
    void reject(const Dims& d) { RT x = pat(d, 4); Tensor<T> t = mk<T>(x); MC_CHECK(mc::throws([&] { layer.forward(t); }), "input " << str(d) << " accepted by a layer of width " << in); expectExact(t, rounded<T>(x), "rejected input"); expectExact(layer.getWeights(), model.p[0], "weights after a rejection"); }
};
template <class T> void config(int in, int out, int kind, const std::vector<int>& batches) {
    for (int mode = 0; mode < 2; ++mode) {
        Run<T> r(in, out, kind); r.layer.setTrainingMode(mode == 0);
        MC_CHECK(mc::throws([&] { r.layer.backward(mk<T>(pat({1, out}, 0))); }), "backward before forward accepted");
        size_t o = 0;
        for (int b : batches) {
            Dims xd = b ? Dims{b, in} : Dims{in}, ud = b ? Dims{b, out} : Dims{out};
            for (int xk : {4, 1, 2}) { r.fwd(pat(xd, xk, o)); r.bwd(pat(ud, 1, ++o)); if (xk == 1) r.bwd(pat(ud, 4, o)); if (xk == 2) r.update(); }
        }
        for (int w = 1; w <= in + 2; ++w) if (w != in) { r.reject({w}); r.reject({1, w}); r.reject({2, w}); r.reject({in, w}); }
    }
}
// every history of forward / backward / update over inputs of different batch sizes
template <class T> void history(const std::vector<int>& w, int in, int out, bool probing = true) {
    Run<T> r(in, out, 4); r.probing = probing; int last = -1; bool grads = false, fresh = false; size_t o = 0;
    for (int op : w) {
        if (op < 4) { int b = op; last = b; fresh = true; r.fwd(pat(b ? Dims{b, in} : Dims{in}, 4, o += 3)); }
        else if (op == 4) { if (last < 0) { MC_CHECK(mc::throws([&] { r.layer.backward(mk<T>(pat({1, out}, 0))); }), "backward before forward accepted"); } else { if (fresh) { r.bwd(pat(last ? Dims{last, out} : Dims{out}, 1, o += 5)); grads = true; } } }
        else if (op > 5) { r.set(op == 6, o += 7); fresh = false; }
        else { if (!grads) MC_CHECK(mc::throws([&] { Probe<T> p; r.layer.updateWeights(p); }), "update before backward accepted"); else { r.update(); fresh = false; } }
    }
}
void explore() {
    int m = mc::thorough() ? 6 : 4; std::vector<int> small = {0, 1, 2, 3, 4};
    mc::bound("configurations", "all widths in,out in 1.." + std::to_string(m) + ", single samples and batches of 1..4, three weight patterns, both modes, float and double");
    for (int i = 1; i <= m; ++i) for (int o = 1; o <= m; ++o) for (int k : {1, 2, 4}) {
        mc::run([&] { return "float layer " + std::to_string(i) + "x" + std::to_string(o) + " pattern " + std::to_string(k); }, [&] { config<float>(i, o, k, small); });
        mc::run([&] { return "double layer " + std::to_string(i) + "x" + std::to_string(o) + " pattern " + std::to_string(k); }, [&] { config<double>(i, o, k, small); });
    }
    std::vector<int> s = {1, 2, 3, 8, 9, 16, 17, 33, 65}; if (mc::thorough()) s.insert(s.end(), {4, 5, 7, 31, 32, 64, 127, 128, 129});
    mc::bound("size sweep", "all (batch,in,out) over " + vstr(s) + " with at most 20000 products, and single long extents up to 262147");
    for (int i : s) for (int o : s) mc::run([&] { return "sizes " + std::to_string(i) + "x" + std::to_string(o); }, [&] { for (int b : s) if (i * o * b <= 20000) { Run<float> r(i, o, 4); r.fwd(pat({b, i}, 4)); r.bwd(pat({b, o}, 4, 7)); Run<double> q(i, o, 1); q.fwd(pat({b, i}, 4)); q.bwd(pat({b, o}, 1, 7)); } });
    for (int n : {100, 127, 128, 129, 257, 300, 1025, 4097, 10007, 70001, 262147}) for (int which = 0; which < 3; ++which) mc::run([&] { return "long extent " + std::to_string(n) + " in place " + std::to_string(which); }, [&] { int i = which == 0 ? n : 3, o = which == 1 ? n : 2, b = which == 2 ? n : 2; if (n > 20000) { Run<double> z(i, o, 4); z.fwd(pat({b, i}, 4)); z.bwd(pat({b, o}, 4, 7)); return; } Run<float> r(i, o, 4); r.fwd(pat({b, i}, 4)); r.bwd(pat({b, o}, 4, 7)); if (which != 2) { r.fwd(pat({i}, 4, 9)); r.bwd(pat({o}, 4, 3)); } });
    int depth = mc::thorough() ? 7 : 5;
    mc::bound("histories", "all words of length " + std::to_string(depth) + " over {forward single, forward batch 1,2,3, backward, update, set weights, set biases} on a 2x3 and a 1x1 layer");
    words(depth, 8, [&](const std::vector<int>& w) { mc::run([&] { return "history " + vstr(w); }, [&] { history<float>(w, 2, 3); history<float>(w, 2, 3, false); if (w[0] == 0) history<double>(w, 1, 1); }); });
    mc::bound("magnitudes", "gradients and outputs scale with upstream gradients and inputs scaled by powers of two from 2^-90 to 2^50 (double: 2^-700 to 2^300)");
    for (int i : {1, 2, 3, 9}) for (int o : {1, 2, 5}) for (int b = 0; b < 4; ++b) mc::run([&] { return "magnitudes, layer " + std::to_string(i) + "x" + std::to_string(o) + ", batch " + std::to_string(b); }, [&] {
        auto go = [&](auto zero) { typedef decltype(zero) T; Dims xd = b ? Dims{b, i} : Dims{i}, ud = b ? Dims{b, o} : Dims{o};
            auto mkl = [&](double bias) { auto l = std::make_unique<FullyConnectedLayer<T>>(i, o); l->setWeights(mk<T>(pat({i, o}, 4, 3))); l->setBiases(mk<T>(RT({1, o}, bias))); return l; };
            scaledUpstream<T>("fully connected layer", [&] { auto l = mkl(0.5); l->forward(mk<T>(pat(xd, 4, 1))); return l; }, pat(ud, 1, 2)); scaledInput<T>("fully connected layer without bias", [&] { return mkl(0); }, pat(xd, 4, 1)); };
        go(0.0f); go(0.0);
    });
}

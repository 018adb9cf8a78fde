// C16: batch normalization uses batch statistics in training, running ones in evaluation.
#include "layers.hpp"
using namespace ref; using namespace smart_dnn;

template <class T> struct Run {
    BatchNormalizationLayer<T> layer; RBN model; int c; Dims last; bool haveFwd = false, haveGrad = false, fresh = false; bool training = true, probing = true; // probing: every gradient is handed to an optimizer that changes nothing; otherwise only updates see them
    Run(int c) : layer(c), model(c), c(c) {}
    Run(int c, double e, double m) : layer(c, T(e), T(m)), model(c, (double)T(e), (double)T(m)), c(c) {}
    double eps() const { return std::is_same<T, float>::value ? 3e-6 : 3e-14; }
    double amp(bool tr) const { double a = 1; if (tr) for (double i : model.inv) a = std::max(a, i); else for (double v : model.rv) a = std::max(a, 1 / std::sqrt(v + model.eps)); double g = 1; for (double x : model.p[0].v) g = std::max(g, std::fabs(x)); return a * g; }
    void mode(bool t) { training = t; model.training = t; Layer<T>& l = layer; l.setTrainingMode(t); MC_TRAIL((t ? "training" : "evaluation")); }
    void fwd(const RT& x0) {
        RT x = rounded<T>(x0); Tensor<T> t = mk<T>(x); Layer<T>& l = layer; RT want = model.fwd(x); MC_TRAIL("forward " << (training ? "(training) " : "(evaluation) ") << str(x));
        double mx = 1; for (double v : x.v) mx = std::max(mx, std::fabs(v));
        Tensor<T> y = l.forward(t); expect(y, want, std::string(training ? "training" : "evaluation") + " forward of " + str(x), Tol{eps() * amp(training) * mx * 8, eps() * 20}); expectExact(t, x, "input"); t.getData().fill(T(777)); mc::state(hash(rd(y)));
        last = x.d; haveFwd = fresh = true;
    }
    void bwd(int kind, size_t off) {
        RT u = rounded<T>(pat(last, kind, off)); Tensor<T> t = mk<T>(u); Layer<T>& l = layer; RT want = model.bwd(u); MC_TRAIL("backward " << str(u));
        double mu = 1; for (double v : u.v) mu = std::max(mu, std::fabs(v));
        Tensor<T> dx = l.backward(t); expect(dx, want, "input gradient of " + str(last) + " for upstream " + str(u), Tol{eps() * amp(true) * mu * 20, eps() * 100}); expectExact(t, u, "upstream"); mc::state(hash(rd(dx))); haveGrad = true;
        if (probing) grads(mu * (double)u.size() / c); else lastScale = mu * (double)u.size() / c;
    }
    void grads(double scale, std::function<void(Tensor<T>&, const Tensor<T>&)> act = nullptr) {
        Probe<T> pr; pr.act = act; Layer<T>& l = layer; l.updateWeights(pr);
        MC_CHECK(pr.got.size() == 2 && !pr.overrideSeen, "updateWeights hands " << pr.got.size() << " parameters to the optimizer, expected scale and shift"); bool seen[2] = {false, false};
        for (auto& e : pr.got) { int k = e.weight.v == model.p[0].v ? 0 : 1; MC_CHECK(e.weight.v == model.p[k].v && !seen[k], "the optimizer is given " << str(e.weight) << "; scale is " << str(model.p[0]) << ", shift is " << str(model.p[1])); seen[k] = true;
            MC_CHECK(e.grad.size() == (size_t)c, (k ? "shift" : "scale") << " gradient has shape " << str(e.grad.d));
            for (int i = 0; i < c; ++i) MC_CHECK(close(e.grad.v[i], model.g[k].v[i], Tol{eps() * scale * 40, eps() * 40}), (k ? "shift" : "scale") << " gradient " << i << " is " << e.grad.v[i] << ", expected " << model.g[k].v[i] << " (training input " << str(last) << ")"); }
        mc::step();
    }
    double lastScale = 1e9;
    void update() {
        MC_TRAIL("update"); fresh = false; grads(lastScale, [](Tensor<T>& w, const Tensor<T>&) { for (size_t i = 0; i < w.getShape().size(); ++i) w.getData().data()[i] = w.getData().data()[i] * T(0.5) + T(0.25) * T((i % 3) + 1); });
        for (auto& q : model.p) for (size_t i = 0; i < q.size(); ++i) q.v[i] = (double)(T(q.v[i]) * T(0.5) + T(0.25) * T((i % 3) + 1));
    }
    void observeRunning() { bool t = training; mode(false); for (double v : {0.0, 3.0}) { RT x({2, c}); for (size_t i = 0; i < x.size(); ++i) x.v[i] = v - (double)(i % 2); fwd(x); RT y({1, c, 1, 2}); for (size_t i = 0; i < y.size(); ++i) y.v[i] = v + (double)i; fwd(y); } mode(t); }
};
static RT data(const Dims& d, size_t off) { RT r = pat(d, 4, off); size_t sp = d.size() == 4 ? d[2] * d[3] : 1; for (size_t i = 0; i < r.size(); ++i) r.v[i] += 0.5 * (double)((i / sp) % d[1]) + 0.25 * (double)off - 1; return r; }

template <class T> void history(const std::vector<int>& w, int c, int b, bool probing = true) {
    Run<T> r(c); r.probing = probing; size_t o = 0;
    for (int op : w) {
        o += 3; Dims d2{b, c}, d4{b, c, 2, 2}, e{b + 1, c};
        switch (op) {
            case 0: r.mode(true); r.fwd(data(d2, o)); break;
            case 1: r.mode(true); r.fwd(data(d4, o)); break;
            case 2: r.mode(false); r.fwd(data(e, o)); break;
            case 3: r.mode(false); r.fwd(data(d4, o)); break;
            case 4: if (!r.haveFwd) MC_CHECK(mc::throws([&] { r.layer.backward(mk<T>(data(d2, 0))); }), "backward before any forward accepted"); else if (r.fresh) r.bwd(1, o); break; // with parameters that changed since the forward pass, two readings are possible
            default: if (!r.haveGrad) MC_CHECK(mc::throws([&] { Probe<T> p; r.layer.updateWeights(p); }), "update before backward accepted"); else r.update();
        }
    }
    r.observeRunning();
}
void explore() {
    bool full = mc::thorough(); int depth = full ? 6 : 5;
    mc::bound("histories", "all words of length " + std::to_string(depth) + " over {train 2-D, train 4-D, eval 2-D, eval 4-D, backward, update}, 2 features, ending with a reading of the running statistics");
    words(depth, 6, [&](const std::vector<int>& w) { mc::run([&] { return "history " + vstr(w); }, [&] { history<float>(w, 2, 2); history<float>(w, 2, 2, false); if (w[0] < 2 && w[1] < 4) history<double>(w, 3, 3); if (w[0] == 1) history<float>(w, 1, 1); }); });
    mc::bound("configurations", "features 1..4, batches 1..5, spatial extents 1..3 x 1..3 and 2-D, momenta {0,0.1,0.5,0.9,1}, epsilons {1e-5,1e-3,0.1,1}");
    for (int c = 1; c <= 4; ++c) for (int b = 1; b <= 5; ++b) for (double m : {0.9, 0.0, 0.1, 0.5, 1.0}) for (double e : {1e-5, 1e-3, 0.1, 1.0}) {
        std::ostringstream nm; nm << c << " features, batch " << b << ", momentum " << m << ", epsilon " << e;
        mc::run([&] { return nm.str(); }, [&] {
            Run<float> r(c, e, m); Run<double> z(c, e, m); size_t o = 0;
            r.observeRunning();
            auto one = [&](const Dims& d) { r.fwd(data(d, ++o)); r.bwd(1, o); r.update(); r.fwd(data(d, ++o)); r.bwd(4, o); r.bwd(1, o + 2); r.observeRunning(); z.fwd(data(d, o)); z.bwd(4, o); z.update(); z.fwd(data(d, o + 5)); z.bwd(1, o); z.observeRunning(); };
            one({b, c}); for (int h = 1; h <= 3; ++h) for (int w = 1; w <= 3; ++w) if (h * w * b < 28) one({b, c, h, w}); one({b + 1, c});
        });
    }
    for (Dims d : std::vector<Dims>{{32, 5}, {33, 1}, {65, 2}, {128, 3}, {2, 33}, {3, 128}, {2, 3, 8, 9}, {5, 17, 2, 2}, {1, 2, 17, 16}, {16, 4, 5, 5}, {257, 1}, {1, 1, 33, 31}}) mc::run([&] { return "larger input " + str(d); }, [&] { Run<float> r(d[1]); Run<double> z(d[1]); for (int k = 0; k < 3; ++k) { r.fwd(data(d, k)); r.bwd(4, k); r.update(); z.fwd(data(d, k)); z.bwd(1, k); r.observeRunning(); z.observeRunning(); } });
    mc::bound("large inputs", "up to 180600 elements and 4099 features, double");
    for (Dims d : std::vector<Dims>{{4099, 2}, {2, 4099}, {1, 2, 300, 301}, {3000, 1, 5, 5}}) mc::run([&] { return "large input " + str(d); }, [&] { Run<double> z(d[1]); for (int k = 0; k < 3; ++k) { z.fwd(data(d, k)); z.bwd(4, k); z.update(); } z.mode(false); z.fwd(data(d, 7)); });
    mc::run([&] { return std::string("inputs of other ranks are rejected"); }, [&] { for (int tr = 0; tr < 2; ++tr) { Run<float> r(2); r.mode(tr); for (Dims d : std::vector<Dims>{{2}, {2, 2, 2}, {2, 2, 2, 2, 2}}) MC_CHECK(mc::throws([&] { r.layer.forward(mk<float>(pat(d, 4))); }), "input " << str(d) << " accepted"); r.observeRunning(); } });
    int reps = full ? 20000 : 3000; mc::bound("long histories", std::to_string(reps) + " training passes of changing size, with evaluation passes, backward passes and updates in between, the running statistics read every 61 passes");
    for (int c : {1, 2, 3, 17}) for (double m : {0.9, 0.01, 0.99, 0.5}) for (int ev = 0; ev < 2; ++ev) mc::run([&] { return "long history, " + std::to_string(c) + " features, momentum " + std::to_string(m); }, [&] {
        Run<float> r(c, 1e-3, m); Run<double> z(c, 1e-3, m); r.probing = z.probing = false;
        for (int k = 0; k < reps; ++k) { Dims d = k % 3 == 1 ? Dims{2, c, 2, 1 + k % 2} : Dims{2 + k % 4, c}; RT x = data(d, k % 53); r.fwd(x); z.fwd(x); if (k % 5 == 2) { r.bwd(4, k % 11); z.bwd(4, k % 11); } if (ev && k % 7 == 3) { r.mode(false); z.mode(false); r.fwd(x); z.fwd(x); r.mode(true); z.mode(true); } if (k % 61 == 60) { r.observeRunning(); z.observeRunning(); } }
    });
    mc::bound("magnitudes", "gradients and outputs scale with upstream gradients and inputs scaled by powers of two from 2^-90 to 2^50 (double: 2^-700 to 2^300)");
    for (Dims d : std::vector<Dims>{{2, 1}, {3, 2}, {5, 3}, {1, 2, 2, 3}, {2, 3, 2, 1}, {4, 1, 3, 3}}) for (int tr = 0; tr < 2; ++tr) mc::run([&] { return "magnitudes, " + str(d) + (tr ? " in training" : " in evaluation"); }, [&] {
        auto go = [&](auto zero) { typedef decltype(zero) T; scaledUpstream<T>("batch normalization", [&] { auto l = std::make_unique<BatchNormalizationLayer<T>>(d[1]); l->forward(mk<T>(data(d, 1))); l->setTrainingMode(tr); l->forward(mk<T>(data(d, 2))); return l; }, pat(d, 1, 2)); };
        go(0.0f); go(0.0);
    });
}

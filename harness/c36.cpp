// C36: misuse is rejected, never answered, and leaves everything usable.
#include "nets.hpp"
using namespace nets;
struct Case { LS l; std::vector<Dims> good; };
static std::vector<Case> cases() {
    std::vector<Case> r;
    auto add = [&](LS l, std::vector<Dims> g) { r.push_back({l, g}); };
    add(fc(3, 2), {{3}, {1, 3}, {2, 3}, {4, 3}}); add(fc(1, 1), {{1}, {1, 1}, {3, 1}}); add(fc(2, 4), {{2}, {4, 2}, {1, 2}}); add(fc(4, 1), {{4}, {2, 4}});
    add(conv(1, 1, 1, 1), {{1, 1, 1, 1}, {2, 1, 3, 2}}); add(conv(2, 3, 2, 2), {{1, 2, 2, 2}, {2, 2, 3, 4}}); add(conv(1, 2, 2, 1, 2, 1, 1), {{2, 1, 1, 1}, {1, 1, 4, 3}}); add(conv(3, 1, 2, 2, 1, 0, 2), {{1, 3, 3, 4}, {2, 3, 4, 3}}); add(conv(2, 2, 1, 3, 1, 1, 1), {{1, 2, 1, 1}, {3, 2, 2, 3}});
    add(pool(2, 2), {{1, 1, 2, 2}, {2, 3, 4, 3}}); add(pool(1, 1), {{1, 1, 1, 1}, {2, 2, 1, 3}}); add(pool(3, 1, 1), {{1, 1, 1, 1}, {1, 2, 4, 3}}); add(pool(2, 1), {{2, 1, 3, 3}});
    add(bn(1), {{3, 1}, {2, 1, 2, 2}}); add(bn(2), {{3, 2}, {2, 2, 2, 1}, {1, 2, 3, 3}}); add(bn(3), {{2, 3}, {4, 3}, {1, 3, 1, 2}});
    add(flat(), {{2, 3}, {2, 2, 3}, {1, 2, 2, 2}, {3, 1, 1}}); add(drop(0.5), {{4}, {2, 3}, {1, 2, 2, 2}});
    for (int a = 0; a <= acts::NKINDS; ++a) add(act(a), a == acts::NKINDS ? std::vector<Dims>{{2, 3}, {1, 4}, {2, 2, 2}} : std::vector<Dims>{{3}, {2, 3}, {2, 2, 2}});
    return r;
}
template <class T> Tensor<T> val(const Dims& d, size_t o) { RT r(d); for (size_t i = 0; i < r.size(); ++i) r.v[i] = 0.31 * (double)((i * 7 + o * 5) % 31) - 4.1 + 0.013 * (double)i; return mk<T>(r); }
// one layer and the twin that is spared the misuse
template <class T> struct Pair {
    LS s; std::unique_ptr<Layer<T>> a, b; std::unique_ptr<RLayer> m; bool tr = true; size_t o = 1;
    Pair(const LS& l) : s(l) { a = make(); b = make(); m = model<T>(l, 2); RandomEngine::setSeed(9); }
    std::unique_ptr<Layer<T>> make() { auto l = real<T>(s); auto q = model<T>(s, 2); if (s.k == FC) { auto& f = dynamic_cast<FullyConnectedLayer<T>&>(*l); f.setWeights(mk<T>(q->p[0])); f.setBiases(mk<T>(q->p[1])); } if (s.k == CONV) { auto& c = dynamic_cast<Conv2DLayer<T>&>(*l); c.setWeights(mk<T>(q->p[0])); c.setBiases(mk<T>(q->p[1])); } return l; }
    bool accepts(const Dims& d) const { return m->accepts(d); }
    bool open(const Dims& d) const { return (s.k == FC && d.size() > 2) || (s.k == ACT && s.a == acts::NKINDS && d.size() == 1); } // neither promised nor forbidden
    void mode(bool t) { tr = t; a->setTrainingMode(t); b->setTrainingMode(t); }
    void same(const Tensor<T>& x, const Tensor<T>& y, const std::string& w) { expectExact(x, rd(y), w); }
    Dims out;
    void forward(const Dims& d, const std::string& after) { auto x = val<T>(d, ++o); RandomEngine::setSeed((unsigned)o); auto y = a->forward(x); RandomEngine::setSeed((unsigned)o); auto z = b->forward(x); same(y, z, str(s) + " forward of " + ref::str(d) + after); out = rd(z).d; mc::step(); }
    void backward(const std::string& after) {
        auto u = val<T>(out, ++o); auto x = a->backward(u); auto y = b->backward(u); same(x, y, str(s) + " backward of " + ref::str(out) + after);
        for (int k = 0; k < 2; ++k) { Probe<T> p, q; if (k) p.act = q.act = [](Tensor<T>& w, const Tensor<T>& g) { for (size_t i = 0; i < w.getShape().size(); ++i) w.getData().data()[i] -= T(0.01) * g.getData().data()[i]; }; a->updateWeights(p); b->updateWeights(q); MC_CHECK(p.got.size() == q.got.size(), str(s) << " updates " << p.got.size() << " parameters" << after); for (size_t i = 0; i < p.got.size(); ++i) MC_CHECK(p.got[i].weight == q.got[i].weight && p.got[i].grad == q.got[i].grad, str(s) << ": parameter " << i << " is " << ref::str(p.got[i].weight) << " with gradient " << ref::str(p.got[i].grad) << after << ", expected " << ref::str(q.got[i].weight) << " and " << ref::str(q.got[i].grad)); }
        mc::state(hash(rd(x))); mc::step();
    }
    void params(const std::string& after) { if (!hasParams(s)) return; auto p = nets::params<T>(*a), q = nets::params<T>(*b); for (size_t i = 0; i < p.size(); ++i) MC_CHECK(p[i] == q[i], str(s) << ": parameter " << i << " is " << ref::str(p[i]) << after << ", it was " << ref::str(q[i])); }
    void final(const std::vector<Dims>& good, const std::string& after) { for (bool q : {false, true}) { mode(q); for (auto& g : good) forward(g, after + (q ? "" : ", in evaluation mode")); } backward(after); } // also what only evaluation shows
    void badForward(const Dims& d) { auto x = val<T>(d, 3); RT keep = rd(x); bool t = mc::throws([&] { a->forward(x); }); MC_CHECK(t || open(d), str(s) << (tr ? "" : " in evaluation mode") << ": an input of shape " << ref::str(d) << " is answered"); expectExact(x, keep, "rejected input"); mc::step(); }
    void badBackward(const Dims& d) {
        if (s.k == DROP && !tr) return; // evaluation: the identity
        auto u = val<T>(d, 5); RT keep = rd(u); Tensor<T> dx(Shape{1}), ex(Shape{1}); bool t = mc::throws([&] { dx = a->backward(u); });
        if (t) { expectExact(u, keep, "rejected gradient"); mc::step(); return; }
        MC_CHECK(prod(d) == prod(out), str(s) << (tr ? "" : " in evaluation mode") << ": a gradient of shape " << ref::str(d) << " is answered after an output of shape " << ref::str(out));
        ex = b->backward(mk<T>(RT(out, keep.v))); same(dx, ex, str(s) + ": gradient of shape " + ref::str(d) + " for an output of shape " + ref::str(out)); mc::step();
    }
};
template <class T> void layer(const Case& c, const std::vector<Dims>& all, bool train) {
    for (auto& g : c.good) { // every wrong gradient after a forward pass, then a proper round
        Pair<T> p(c.l); p.mode(true); p.forward(c.good[0], ""); p.backward(""); p.mode(train);
        int k = 0; for (auto& d : all) {
            if (k++ % 16 == 0) p.forward(g, " after misuse");
            if (d == p.out) continue;
            MC_TRAIL("gradient " << ref::str(d) << " for an output " << ref::str(p.out)); p.badBackward(d);
            if (k % 16 == 0) { p.backward(" after wrong gradients"); p.params(" after wrong gradients"); p.forward(c.good[(size_t)k / 16 % c.good.size()], " after wrong gradients"); p.backward(" after wrong gradients"); }
        }
        p.params(" after wrong gradients"); p.final(c.good, " after wrong gradients");
    }
    { // every wrong input, between passes and between a forward and a backward pass
        Pair<T> p(c.l); p.mode(true); p.forward(c.good[0], ""); p.backward(""); p.mode(train);
        int k = 0; for (auto& d : all) { if (p.accepts(d)) continue; MC_TRAIL("input " << ref::str(d)); p.badForward(d); if (p.open(d) || ++k % 16 == 0) { for (auto& g : c.good) { p.forward(g, " after wrong inputs"); p.backward(" after wrong inputs"); } p.params(" after wrong inputs"); } }
        p.final(c.good, " after wrong inputs");
    }
    for (auto& d : all) { // misuse of a layer that was never used
        Pair<T> p(c.l); if (p.accepts(d) || p.open(d)) continue; p.mode(train); p.badForward(d); p.mode(true); p.forward(c.good.back(), " after a wrong first input"); p.backward(" after a wrong first input"); p.final({c.good[0]}, " after a wrong first input");
    }
}
// words over {good forward, backward, wrong forward, wrong backward}
template <class T> void histories(const Case& c, const std::vector<Dims>& bad, int depth, int first) {
    words(depth, 5, [&](const std::vector<int>& w) {
        if (w[0] != first) return;
        Pair<T> p(c.l); bool ready = false; int i = 0; size_t q = 0;
        for (int op : w) { ++i; std::string at = " in history " + vstr(w);
            if (op <= 1) { p.forward(c.good[(size_t)(op + i) % c.good.size()], at); ready = true; }
            else if (op == 2) { if (ready) p.backward(at); }
            else if (op == 3) { for (int t = 0; t < 3; ++t) { auto& d = bad[q = (q * 7 + 3 + (size_t)i) % bad.size()]; if (!p.accepts(d) && !p.open(d)) p.badForward(d); } ready = false; }
            else for (int t = 0; t < 3; ++t) { auto& d = bad[q = (q * 5 + 1 + (size_t)i) % bad.size()]; if (!ready) { Pair<T> f(c.l); if (f.s.k != DROP || f.tr) MC_CHECK(mc::throws([&] { f.a->backward(val<T>(d, 2)); }), str(c.l) << ": backward before any forward is answered"); } else if (prod(d) != prod(p.out)) p.badBackward(d); }
        }
        p.forward(c.good[0], " after history " + vstr(w)); p.backward(" after history " + vstr(w)); p.params(" after history " + vstr(w)); p.final({c.good.back()}, " after history " + vstr(w));
    });
}
// impossible options are rejected by the constructor or by the first use
template <class L, class T> void impossible(const std::string& w, std::function<std::unique_ptr<L>()> make, const Dims& x, bool possible) {
    MC_TRAIL(w); bool t = mc::throws([&] { auto l = make(); l->setTrainingMode(true); l->forward(val<T>(x, 1)); });
    MC_CHECK(t != possible, w << (possible ? " is rejected" : " is accepted")); mc::step();
}
template <class T> void options(const std::string& ty) {
    std::vector<int> v = {-2147483647 - 1, -2, -1, 0, 1, 2};
    mc::run([&] { return "options of fully connected and batch normalization layers" + ty; }, [&] {
        for (int i : v) { for (int o : v) impossible<FullyConnectedLayer<T>, T>("FullyConnectedLayer(" + std::to_string(i) + ", " + std::to_string(o) + ")", [=] { return std::make_unique<FullyConnectedLayer<T>>(i, o); }, {2, std::max(i, 1)}, i > 0 && o > 0);
            impossible<BatchNormalizationLayer<T>, T>("BatchNormalizationLayer(" + std::to_string(i) + ")", [=] { return std::make_unique<BatchNormalizationLayer<T>>(i); }, {2, std::max(i, 1)}, i > 0); } });
    for (int i : v) for (int o : v) mc::run([&] { return "options of convolutions of " + std::to_string(i) + " and " + std::to_string(o) + " channels" + ty; }, [&] {
        for (int kh : v) for (int kw : v) for (int s : v) for (int p : v) for (int d : v) { if (p < -2 || (p > 0 && d < 0)) { if (p > 0) continue; } bool ok = i > 0 && o > 0 && kh > 0 && kw > 0 && s > 0 && p >= 0 && d > 0; impossible<Conv2DLayer<T>, T>("Conv2DLayer(" + vstr(std::vector<int>{i, o, kh, kw, s, p, d}) + ")", [=] { return std::make_unique<Conv2DLayer<T>>(i, o, kh, kw, s, p, d); }, {1, std::max(i, 1), 5, 5}, ok); } });
    mc::run([&] { return "options of pooling layers" + ty; }, [&] { for (int k : v) for (int s : v) for (int p : v) { bool ok = k > 0 && s > 0 && p >= 0; if (ok && p >= k) continue; impossible<MaxPooling2DLayer<T>, T>("MaxPooling2DLayer(" + vstr(std::vector<int>{k, s, p}) + ")", [=] { return std::make_unique<MaxPooling2DLayer<T>>(k, s, p); }, {1, 2, 5, 5}, ok); if (p == 0) impossible<MaxPooling2DLayer<T>, T>("MaxPooling2DLayer(" + vstr(std::vector<int>{k, s}) + ")", [=] { return std::make_unique<MaxPooling2DLayer<T>>(k, s); }, {1, 2, 5, 5}, ok); } });
    mc::run([&] { return "dropout rates" + ty; }, [&] { for (double r : {-1e30, -2.0, -1.0, -0.5, -1e-3, 1.001, 1.5, 2.0, 1e30, (double)INFINITY, (double)-INFINITY, (double)NAN, 0.0, 0.25, 0.5, 0.75, 0.99}) { std::ostringstream n; n << "DropoutLayer(" << r << ")"; impossible<DropoutLayer<T>, T>(n.str(), [=] { return std::make_unique<DropoutLayer<T>>((T)r); }, {2, 3}, r >= 0 && r < 1); } });
    mc::run([&] { return "batch sizes of Adam" + ty; }, [&] { for (int b : {-2147483647 - 1, -32, -2, -1, 0, 1, 2, 32, 2147483647}) { MC_TRAIL("batch size " << b); Tensor<T> w({2}, T(1)), g({2}, T(0.5)); bool t = mc::throws([&] { AdamOptions<T> o; o.batchSize = b; AdamOptimizer<T> a(o); a.optimize({std::ref(w)}, {std::ref(g)}); }); MC_CHECK(t == (b <= 0), "an Adam optimizer with batch size " << b << (t ? " is rejected" : " is accepted")); if (t) MC_CHECK(w[0] == T(1) && w[1] == T(1), "a rejected step changes the weights"); mc::step(); } });
}
template <class T> std::vector<RT> seen(Layer<T>& l) { // parameters, where they can be read
    if (auto* f = dynamic_cast<FullyConnectedLayer<T>*>(&l)) return {rd(f->getWeights()), rd(f->getBiases())};
    if (auto* c = dynamic_cast<Conv2DLayer<T>*>(&l)) return {rd(c->getWeights()), rd(c->getBiases())};
    try { return nets::params<T>(l); } catch (const std::runtime_error&) { return {}; } // no backward pass yet
}
// a model that is given a wrong sample fails there, and continues as if that sample had only been predicted
template <class T> void models(bool full) {
    struct M { Net n; Dims x, y; int loss; std::vector<Dims> bad; }; std::vector<M> ms;
    ms.push_back({{fc(3, 4), act(acts::TANH), fc(4, 2)}, {2, 3}, {2, 2}, 0, {{2, 4}, {2}, {4}, {2, 2}, {1, 2, 2, 2}}});
    ms.push_back({{fc(3, 4), bn(4), act(acts::RELU), fc(4, 3), act(acts::NKINDS)}, {2, 3}, {2, 3}, 1, {{2, 4}, {3, 2}, {1}}});
    ms.push_back({{conv(1, 2, 2, 2), bn(2), act(acts::SWISH), pool(2, 1), flat(), fc(8, 2)}, {2, 1, 4, 4}, {2, 2}, 0, {{2, 1, 3, 4}, {2, 2, 4, 4}, {2, 16}, {1, 4, 4}, {2, 1, 2, 2}, {2, 1, 1, 1}, {2, 1, 5, 4}}});
    ms.push_back({{drop(0.5), fc(3, 2)}, {2, 3}, {2, 2}, 0, {{2, 2}, {5}}});
    auto os = optimizers(); mc::bound("models", std::to_string(ms.size()) + " models, " + std::to_string(os.size()) + " optimizers, every position of a wrong input or target among 1..3 samples");
    for (auto& c : ms) for (size_t q = 0; q < os.size(); q += full ? 1 : 2) mc::run([&] { return "wrong samples for " + str(c.n) + ", " + opts::str(os[q]); }, [&] {
        auto x = [&](int i) { return mk<T>(map(pat(c.x, 4, (size_t)i * 11 + 3), [](double v) { return v * 0.5; })); };
        auto y = [&](int i) { RT t = pat(c.y, 4, (size_t)i * 5 + 1); if (c.loss) for (size_t k = 0; k < t.size(); ++k) t.v[k] = (int)(k % c.y[1]) == i % c.y[1]; return mk<T>(t); };
        std::vector<std::pair<Dims, Dims>> wrong; for (auto& d : c.bad) wrong.push_back({d, c.y}); for (Dims d : std::vector<Dims>{{1, c.y[1]}, {c.y[0], c.y[1] + 1}, {c.y[1]}, {1}, {c.y[0] + 1, c.y[1]}, {1, c.y[0], c.y[1]}}) if (d != c.y) wrong.push_back({c.x, d});
        for (auto& b : wrong) for (int n = 1; n <= 3; ++n) for (int at = 0; at < n; ++at) {
            MC_TRAIL("wrong sample " << ref::str(b.first) << " -> " << ref::str(b.second) << " at " << at << " of " << n); Quiet quiet;
            SmartDNN<T> m, t; RandomEngine::setSeed(7); for (auto& l : c.n) add(m, l); RandomEngine::setSeed(7); for (auto& l : c.n) add(t, l); nets::compile(m, c.loss, os[q]); nets::compile(t, c.loss, os[q]);
            std::vector<Tensor<T>> xs, ys; for (int i = 0; i < n; ++i) { xs.push_back(i == at ? val<T>(b.first, 2) : x(i)); ys.push_back(i == at ? val<T>(b.second, 4) : y(i)); }
            RandomEngine::setSeed(21); MC_CHECK(mc::throws([&] { m.train(xs, ys, 2); }), "training with a sample " << ref::str(b.first) << " -> " << ref::str(b.second) << " does not fail");
            RandomEngine::setSeed(21); if (at) t.train(std::vector<Tensor<T>>(xs.begin(), xs.begin() + at), std::vector<Tensor<T>>(ys.begin(), ys.begin() + at), 1); mc::throws([&] { t.predict(xs[at]); });
            for (int round = 0; round < 2; ++round) {
                for (size_t k = 0; k < c.n.size(); ++k) if (hasParams(c.n[k])) { auto p = seen<T>(*m.getLayer(k)), r = seen<T>(*t.getLayer(k)); MC_CHECK(p.size() == r.size(), "layer " << k << " has gradients after a wrong sample"); for (size_t i = 0; i < p.size(); ++i) MC_CHECK(p[i] == r[i], "parameter " << i << " of layer " << k << " is " << ref::str(p[i]) << (round ? " when training goes on" : "") << " after a wrong sample, expected " << ref::str(r[i])); }
                RandomEngine::setSeed(5); m.train({x(1), x(2)}, {y(1), y(2)}, 2); RandomEngine::setSeed(5); t.train({x(1), x(2)}, {y(1), y(2)}, 2); m.evalMode(); t.evalMode(); expectExact(m.predict(x(3)), rd(t.predict(x(3))), "prediction after a wrong sample"); m.trainingMode(); t.trainingMode(); mc::step(3);
            }
            mc::trace();
        }
        SmartDNN<T> m; for (size_t k = 0; k < c.n.size(); ++k) { for (size_t i = k; i < k + 3; ++i) MC_CHECK(mc::throws([&] { m.getLayer(i); }), "layer " << i << " of a model of " << k << " is returned"); MC_CHECK(mc::throws([&] { m.getLayer((size_t)-1); }), "layer -1 is returned"); add(m, c.n[k]); MC_CHECK(m.getLayer(k) != nullptr, "layer " << k << " is missing"); }
    });
}
void explore() {
    bool full = mc::thorough(); auto cs = cases(); std::vector<Dims> all; for (int r = 1; r <= 4; ++r) shapesOfRank(r, 4, 256, [&](const Dims& d) { all.push_back(d); }); shapesOfRank(5, 2, 32, [&](const Dims& d) { all.push_back(d); });
    for (Dims d : std::vector<Dims>{{5}, {6}, {8}, {12}, {6, 1}, {2, 12}, {1, 8}, {3, 9}, {64}}) all.push_back(d);
    mc::bound("shapes", std::to_string(all.size()) + " shapes: rank 1..4 with extents 1..4, rank 5 with extents 1..2, and some longer ones; as input and as gradient of every layer"); mc::bound("layers", std::to_string(cs.size()) + " layers of all kinds, in training and in evaluation mode");
    for (auto& c : cs) for (bool tr : {true, false}) { mc::run([&] { return "misuse of " + str(c.l) + (tr ? "" : " in evaluation mode"); }, [&] { layer<float>(c, all, tr); }); mc::run([&] { return "misuse of " + str(c.l) + (tr ? " (double)" : " in evaluation mode (double)"); }, [&] { layer<double>(c, all, tr); }); }
    int depth = full ? 6 : 5; mc::bound("histories", "all words of length " + std::to_string(depth) + " over {two proper forward passes, backward and update, wrong inputs, wrong gradients}");
    for (auto& c : cs) for (int f = 0; f < 5; ++f) mc::run([&] { return "histories of " + str(c.l) + " that start with " + std::to_string(f); }, [&] { histories<float>(c, all, depth, f); });
    mc::bound("options", "all combinations of sizes, strides, paddings and dilations out of {smallest integer, -2, -1, 0, 1, 2}, 17 dropout rates, 9 Adam batch sizes");
    options<float>(" (float)"); options<double>(" (double)");
    models<float>(full); if (full) models<double>(full);
}

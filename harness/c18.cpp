// C18: layers follow the forward/backward protocol, whatever came before.
#include "layers.hpp"
#include "smart_dnn/RandomEngine.hpp"
using namespace ref; using namespace smart_dnn;

template <class T> struct Kind {
    std::string name; std::function<std::unique_ptr<Layer<T>>(std::vector<RT>&)> real; std::function<std::unique_ptr<RLayer>(std::vector<RT>&)> model;
    std::vector<Dims> in; std::vector<Dims> bad; bool dropout = false, bn = false, params = false, elementwise = false;
};
template <class T> std::vector<Kind<T>> kinds() {
    std::vector<Kind<T>> k; typedef std::unique_ptr<Layer<T>> P; typedef std::unique_ptr<RLayer> M; typedef std::vector<RT> V;
    auto add = [&](std::string n, std::function<P(V&)> r, std::function<M(V&)> m, std::vector<Dims> in, std::vector<Dims> bad) -> Kind<T>& { Kind<T> q; q.name = n; q.real = r; q.model = m; q.in = in; q.bad = bad; k.push_back(q); return k.back(); };
    add("FullyConnected(3,2)", [](V& p) { if (p.empty()) p = {rounded<T>(pat({3, 2}, 4, 1)), rounded<T>(pat({1, 2}, 4, 9))}; auto l = new FullyConnectedLayer<T>(3, 2); l->setWeights(mk<T>(p[0])); l->setBiases(mk<T>(p[1])); return P(l); }, [](V& p) { return M(new RFC(p[0], p[1])); }, {{3}, {1, 3}, {2, 3}, {3, 3}}, {{2, 2}, {4}}).params = true;
    add("Conv2D(2,3,2)", [](V& p) { if (p.empty()) p = {rounded<T>(pat({3, 2, 2, 2}, 4, 1)), rounded<T>(pat({3, 1}, 4, 9))}; auto l = new Conv2DLayer<T>(2, 3, 2); l->setWeights(mk<T>(p[0])); l->setBiases(mk<T>(p[1])); return P(l); }, [](V& p) { return M(new RConv(p[0], p[1], 1, 0, 1)); }, {{1, 2, 2, 2}, {2, 2, 3, 2}, {1, 2, 2, 4}, {3, 2, 2, 2}}, {{1, 2, 1, 4}}).params = true;
    add("Conv2D(1,2,2x1,stride 2,padding 1)", [](V& p) { if (p.empty()) p = {rounded<T>(pat({2, 1, 2, 1}, 4, 1)), rounded<T>(pat({2, 1}, 4, 9))}; auto l = new Conv2DLayer<T>(1, 2, 2, 1, 2, 1, 1); l->setWeights(mk<T>(p[0])); l->setBiases(mk<T>(p[1])); return P(l); }, [](V& p) { return M(new RConv(p[0], p[1], 2, 1, 1)); }, {{1, 1, 2, 2}, {2, 1, 1, 1}, {1, 1, 4, 3}}, {}).params = true;
    add("MaxPooling2D(2)", [](V&) { return P(new MaxPooling2DLayer<T>(2)); }, [](V&) { return M(new RPool(2, 2, 0)); }, {{1, 1, 2, 2}, {2, 1, 2, 4}, {1, 2, 4, 3}, {1, 3, 3, 3}}, {{2, 2}, {2, 2, 2}, {1, 1, 1, 4}});
    add("MaxPooling2D(3,1,1)", [](V&) { return P(new MaxPooling2DLayer<T>(3, 1, 1)); }, [](V&) { return M(new RPool(3, 1, 1)); }, {{1, 1, 1, 1}, {2, 1, 2, 4}, {1, 2, 4, 3}}, {{4}});
    { Kind<T>& q = add("BatchNormalization(2)", [](V& p) { if (p.empty()) p = {RT({1, 2}, {1, 1}), RT({1, 2}, {0, 0})}; return P(new BatchNormalizationLayer<T>(2)); }, [](V&) { return M(new RBN(2)); }, {{3, 2}, {2, 2, 2, 1}, {1, 2, 2, 3}, {5, 2}}, {{2}, {2, 2, 2}}); q.params = true; q.bn = true; }
    add("Dropout(0.5)", [](V&) { return P(new DropoutLayer<T>(T(0.5))); }, [](V&) { return M(); }, {{3}, {2, 3}, {1, 2, 2, 3}, {3, 2}, {6}}, {}).dropout = true;
    add("Flatten", [](V&) { return P(new FlattenLayer<T>()); }, [](V&) { return M(new RFlat()); }, {{2, 6}, {1, 2, 3}, {2, 1, 3, 2}, {3, 4}, {6, 2, 1, 1, 1}, {1, 12}}, {{3}});
    for (int a = 0; a <= acts::NKINDS; ++a) add(std::string("Activation ") + acts::name(a), [a](V&) {
        switch (a) { case acts::RELU: return P(new ActivationLayer<T>(ReLU<T>())); case acts::LEAKY: return P(new ActivationLayer<T>(LeakyReLU<T>())); case acts::LEAKY3: return P(new ActivationLayer<T>(LeakyReLU<T>(T(0.3)))); case acts::SIGMOID: return P(new ActivationLayer<T>(Sigmoid<T>())); case acts::TANH: return P(new ActivationLayer<T>(Tanh<T>())); case acts::SWISH: return P(new ActivationLayer<T>(Swish<T>())); case acts::MISH: return P(new ActivationLayer<T>(Mish<T>())); default: return P(new ActivationLayer<T>(Softmax<T>())); }
    }, [a](V&) { return M(new RAct<T>(a)); }, a == acts::NKINDS ? std::vector<Dims>{{1, 4}, {2, 3}, {2, 2, 2}, {3, 2}} : std::vector<Dims>{{4}, {2, 3}, {2, 2, 2}, {3, 2}}, {});
    return k;
}
// nothing on a kink or a tie
static RT data(const Dims& d, size_t off) { RT r(d); for (size_t i = 0; i < r.size(); ++i) r.v[i] = 0.31 * (double)((i * 7 + off * 5) % 31) - 4.1 + 0.013 * (double)i; return r; }

template <class T> struct Sim {
    const Kind<T>& k; std::unique_ptr<Layer<T>> l, fresh; std::unique_ptr<RLayer> m; std::vector<RT> p; bool tr = true; bool any = false, answered = false, usable = false, upd = false; Dims in, out; size_t o; RT lastIn; unsigned seed = 0;
    Sim(const Kind<T>& k, size_t off) : k(k), o(off) { l = k.real(p); m = k.model(p); }
    double tol() const { return std::is_same<T, float>::value ? 2e-4 : 1e-10; }
    void judge(const Tensor<T>& got, const RT& want, const std::string& w) { expect(got, want, k.name + ": " + w, Tol{tol(), tol()}); mc::state(hash(rd(got))); }
    void forward(const Dims& d) {
        RT x = rounded<T>(data(d, o += 3)); Tensor<T> t = mk<T>(x); MC_TRAIL(k.name << " forward " << str(d)); RandomEngine::setSeed(seed = (unsigned)o * 31 + 5);
        Tensor<T> y = l->forward(t);
        if (k.dropout) { // against a fresh layer with the same random numbers
            RandomEngine::setSeed(seed); fresh = k.real(p); fresh->setTrainingMode(tr); Tensor<T> want = fresh->forward(t); expectExact(y, rd(want), k.name + ": forward compared with a fresh layer");
        } else judge(y, m->fwd(x), "forward of " + str(x));
        expectExact(t, x, k.name + ": input"); in = d; out = rd(y).d; any = true; usable = !(k.bn && !tr); lastIn = x;
        t.getData().fill(T(1000)); y.getData().fill(T(-1000)); // the caller reuses its tensors
    }
    void backward() {
        if (!any) { if (k.dropout && !tr) return; MC_TRAIL(k.name << " backward before forward"); MC_CHECK(mc::throws([&] { l->backward(mk<T>(data(k.in[0], 1))); }), k.name << ": backward before any forward is answered"); return; }
        if (!usable || (k.dropout && !fresh)) return;
        RT u = rounded<T>(pat(out, 4, o += 5)); Tensor<T> t = mk<T>(u); MC_TRAIL(k.name << " backward " << str(out));
        Tensor<T> dx = l->backward(t); RT got = rd(dx); MC_CHECK(got.d == in, k.name << ": the input gradient has shape " << str(got.d) << " after an input of shape " << str(in)); expectExact(t, u, k.name + ": upstream");
        if (k.dropout) expectExact(dx, rd(fresh->backward(t)), k.name + ": backward compared with a fresh layer");
        else {
            judge(dx, m->bwd(u), "backward after input " + str(in) + ", upstream " + str(u));
            if (!k.bn) { std::vector<RT> q = p; auto f = k.real(q); Tensor<T> a = mk<T>(lastIn); f->forward(a); expectExact(f->backward(t), got, k.name + ": backward of a fresh layer with the same parameters"); }
        }
        t.getData().fill(T(1000)); dx.getData().fill(T(-1000)); answered = true;
        if (k.params && probing) { Probe<T> pr; l->updateWeights(pr); gradients(pr); }
    }
    void gradients(const Probe<T>& pr) { MC_CHECK(pr.got.size() == p.size(), k.name << ": wrong number of parameters"); for (size_t j = 0; j < p.size(); ++j) { const Probe<T>* q = &pr; bool found = false; for (auto& e : q->got) if (e.weight.v == p[j].v && e.grad.size() == m->g[j].size()) { found = true; for (size_t i = 0; i < p[j].size(); ++i) MC_CHECK(close(e.grad.v[i], m->g[j].v[i], Tol{20 * tol(), tol()}), k.name << ": gradient " << i << " of parameter " << j << " is " << e.grad.v[i] << ", expected " << m->g[j].v[i]); break; } MC_CHECK(found, k.name << ": parameter " << j << " is not given to the optimizer"); } }
    void update() {
        if (!k.params) { Probe<T> pr; l->updateWeights(pr); MC_CHECK(pr.got.empty(), k.name << " has no parameters but updates some"); return; }
        if (!answered) { MC_CHECK(mc::throws([&] { Probe<T> pr; l->updateWeights(pr); }), k.name << ": update before any backward is accepted"); return; }
        MC_TRAIL(k.name << " update"); auto ch = [&](T x, size_t i) { return flip ? -x : x * T(0.5) + T(0.25) * T((i % 3) + 1); };
        Probe<T> pr; pr.act = [&](Tensor<T>& w, const Tensor<T>&) { for (size_t i = 0; i < w.getShape().size(); ++i) w.getData().data()[i] = ch(w.getData().data()[i], i); }; l->updateWeights(pr); gradients(pr);
        for (size_t j = 0; j < p.size(); ++j) { for (size_t i = 0; i < p[j].size(); ++i) p[j].v[i] = (double)ch(T(p[j].v[i]), i); m->p[j].v = p[j].v; } usable = false;
    }
    void op(int c) {
        int n = (int)k.in.size();
        if (c == 0) backward(); else if (c == 1) { tr = !tr; l->setTrainingMode(tr); if (m) m->training = tr; MC_TRAIL(k.name << " mode " << tr); if (k.dropout) fresh.reset(); } else if (c == 2) update();
        else if (c == 3 && !k.bad.empty()) { for (auto& d : k.bad) { MC_TRAIL(k.name << " rejected forward " << str(d)); MC_CHECK(mc::throws([&] { l->forward(mk<T>(data(d, 1))); }), k.name << ": an input of shape " << str(d) << " is accepted"); } usable = false; if (!any) any = false, noBefore = true; }
        else if (c >= 4) { forward(k.in[(c - 4) % n]); noBefore = false; }
    }
    bool noBefore = false, flip = false, probing = true; // probing: every gradient is handed to an optimizer that changes nothing; otherwise only updates see them
    // flip: updates that keep different parameters different, however many
    void step(int c) { if (c == 0 && noBefore && !any) return; op(c); }
};
void explore() {
    static auto kf = kinds<float>(); static auto kd = kinds<double>(); int depth = mc::thorough() ? 6 : 4;
    mc::bound("histories", "for each of " + std::to_string(kf.size()) + " layer kinds, all words of length " + std::to_string(depth) + " over {backward, mode switch, update, rejected forward, forward of 2 to 6 inputs of different batch size and rank}; a second layer of the same kind runs a rotated word in lockstep");
    for (size_t q = 0; q < kf.size(); ++q) { int A = 4 + (int)std::min<size_t>(kf[q].in.size(), mc::thorough() ? 6 : 4); words(depth, A, [&](const std::vector<int>& w) { mc::run([&] { return kf[q].name + " history " + vstr(w); }, [&] {
        Sim<float> a(kf[q], 0), b(kf[q], 100); for (size_t i = 0; i < w.size(); ++i) { a.step(w[i]); b.step(4 + (w[i] * 3 + (int)i) % (A - 4)); if (i % 2) b.step(0); }
        if (w[0] >= 4) { Sim<double> z(kd[q], 7); z.probing = false; for (int c : w) z.step(c); z.step(4); z.step(0); }
    }); }); }
    // every ordered pair of inputs, including the extra ones
    for (size_t q = 0; q < kf.size(); ++q) mc::run([&] { return kf[q].name + ": all pairs and triples of inputs"; }, [&] { int n = (int)kf[q].in.size(); words(3, n, [&](const std::vector<int>& w) { for (int upd = 0; upd < 4; ++upd) { Sim<float> a(kf[q], 3); a.probing = upd < 2; for (int c : w) { a.step(4 + c); a.step(0); if (upd & 1) a.step(2); } } }); });
    int reps = mc::thorough() ? 1500 : 300; mc::bound("long histories", std::to_string(reps) + " forward passes of each layer kind, with backward passes, updates and mode switches in between");
    for (size_t q = 0; q < kf.size(); ++q) for (int kind = 0; kind < 3; ++kind) mc::run([&] { return kf[q].name + ": long history " + std::to_string(kind); }, [&] { int n = (int)kf[q].in.size(); Sim<float> a(kf[q], 3); Sim<double> z(kd[q], 5); a.flip = z.flip = true; for (int i = 0; i < reps; ++i) { int c = 4 + (kind == 0 ? 0 : i * i + i / 7) % n; a.step(c); z.step(c); if (kind < 2 || i % 5 == 4) { a.step(0); z.step(0); } if (kind == 2 && i % 3 == 0) { a.step(2); z.step(2); } if (kind == 2 && i % 17 == 16) { a.step(1); z.step(1); } } if (!a.tr) { a.step(1); z.step(1); } a.step(4); z.step(4); a.step(0); z.step(0); });
    // flatten over all shapes: order and shape restored
    mc::bound("flatten", "all shapes of rank 2..5 with extents 1..3");
    for (int r = 2; r <= 5; ++r) mc::run([&] { return "flatten of every shape of rank " + std::to_string(r); }, [&] { shapesOfRank(r, 3, 243, [&](const Dims& d) { FlattenLayer<float> l; RT x = pat(d, 0); Tensor<float> t = mk<float>(x); Tensor<float> y = l.forward(t); expectExact(y, RT({d[0], (int)(prod(d) / d[0])}, x.v), "flatten of " + str(d)); RT u(rd(y).d, pat(d, 1).v); expectExact(l.backward(mk<float>(u)), RT(d, u.v), "flatten backward to " + str(d)); expectExact(t, x, "input"); }); });
}

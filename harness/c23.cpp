// C23: training performs, for each epoch and sample in order, forward, loss gradient, backward and one update per layer.
#include "nets.hpp"
using namespace nets;
// ---- recording stand-ins for layers, losses and optimizers ----
enum Op { FWD, BWD, UPD, LOSS, GRAD, OPT };
struct Ev { int op, who; bool mode; RT a, b; RT out; };
static std::vector<Ev> events; static int serial = 0;
struct Rec : Layer<float> { // forward and backward are affine maps that differ between layers and between calls
    int id; int calls = 0; Rec(int i) : id(i) {}
    Tensor<float> forward(const Tensor<float>& x) override { RT r = rd(x); for (auto& v : r.v) v = 2 * v + id + 0.25 * ++calls; r = rounded<float>(r); events.push_back({FWD, id, trainingMode, rd(x), RT(), r}); return mk<float>(r); }
    Tensor<float> backward(const Tensor<float>& u) override { RT r = rd(u); for (auto& v : r.v) v = v * 0.5 - id - 0.125 * ++calls; r = rounded<float>(r); events.push_back({BWD, id, trainingMode, rd(u), RT(), r}); return mk<float>(r); }
    void updateWeights(Optimizer<float>& o) override { events.push_back({UPD, id, trainingMode, RT(), RT(), RT()}); Tensor<float> w({1}, float(id)), g({1}, 1.0f); o.optimize({std::ref(w)}, {std::ref(g)}); }
};
// the losses and gradients the stand-in reports: training must not depend on either of them
static int lossMode = 0, gradMode = 0; static const char* LM[] = {"p+t", "always 0", "always 0.5", "0 and -1 in turn", "falling to 0", "rising", "tiny"};
struct RecLoss : Loss<float> {
    int id; RecLoss(int i) : id(i) {} int n = 0;
    float value(const RT& p, const RT& t) { ++n; switch (lossMode) { case 1: return 0; case 2: return 0.5f; case 3: return n % 2 ? 0.0f : -1.0f; case 4: return std::max(0.0f, 4.0f - 0.5f * n); case 5: return 1000.0f * n; case 6: return 1e-12f * n; default: return float(p.v[0] + t.v[0]); } }
    Tensor<float> compute(const Tensor<float>& p, const Tensor<float>& t) override { float v = value(rd(p), rd(t)); events.push_back({LOSS, id, false, rd(p), rd(t), RT({1}, v)}); return Tensor<float>({1}, v); }
    Tensor<float> gradient(const Tensor<float>& p, const Tensor<float>& t) override { RT r = rd(p), q = rd(t); for (size_t i = 0; i < r.size(); ++i) r.v[i] = r.v[i] - q.v[i % q.size()] + 0.125 * ++serial; if (gradMode) for (auto& v : r.v) v = gradMode == 1 ? 0 : 1e-9; r = rounded<float>(r); events.push_back({GRAD, id, false, rd(p), rd(t), r}); return mk<float>(r); }
};
struct RecOpt : Optimizer<float> { int id; RecOpt(int i) : id(i) {} void optimize(const std::vector<std::reference_wrapper<Tensor<float>>>& w, const std::vector<std::reference_wrapper<Tensor<float>>>&, float lr) override { events.push_back({OPT, id, lr > 0, rd(w[0].get()), RT(), RT()}); } };

struct Judge { // walks through the recorded events; the order of independent events is free
    size_t at = 0; std::vector<bool> mode; int lossId = 0, optId = 0;
    const Ev& next(const std::string& what) { MC_CHECK(at < events.size(), "nothing follows; expected " << what); return events[at++]; }
    RT forward(const RT& x) { RT v = x; for (size_t k = 0; k < mode.size(); ++k) { std::string w = "forward of layer " + std::to_string(k); auto& e = next(w); MC_CHECK(e.op == FWD && e.who == (int)k, "event " << at - 1 << " is operation " << e.op << " of " << e.who << ", expected " << w); MC_CHECK(e.a == v, w << " is given " << ref::str(e.a) << ", expected " << ref::str(v)); MC_CHECK(e.mode == mode[k], w << " runs in " << (e.mode ? "training" : "evaluation") << " mode"); v = e.out; mc::step(); } return v; }
    double sample(const RT& x, const RT& t) {
        int n = (int)mode.size(); RT y = forward(x), g; bool haveG = false; double sum = 0; std::vector<int> upd(n, 0); int nextB = n - 1, losses = 0;
        for (;;) {
            bool done = haveG && nextB < 0; for (int u : upd) done &= u == 1; if (done && losses > 0) break;
            if (at == events.size()) break; const Ev& e = events[at];
            if (e.op == LOSS) { MC_CHECK(e.who == lossId && e.a == y && e.b == t, "the loss is computed of " << ref::str(e.a) << " and " << ref::str(e.b) << ", expected " << ref::str(y) << " and " << ref::str(t)); losses++; sum = e.out.v[0]; ++at; continue; }
            if (e.op == FWD) break;
            ++at; mc::step();
            if (e.op == GRAD) { MC_CHECK(!haveG, "the loss gradient is taken twice for one sample"); MC_CHECK(e.who == lossId && e.a == y && e.b == t, "the loss gradient is taken of " << ref::str(e.a) << " and " << ref::str(e.b) << ", expected " << ref::str(y) << " and " << ref::str(t)); g = e.out; haveG = true; }
            else if (e.op == BWD) { MC_CHECK(haveG && e.who == nextB, "backward of layer " << e.who << ", expected " << (haveG ? "layer " + std::to_string(nextB) : "the loss gradient first")); MC_CHECK(e.a == g, "backward of layer " << e.who << " is given " << ref::str(e.a) << ", expected " << ref::str(g)); MC_CHECK(e.mode == mode[e.who], "backward of layer " << e.who << " in the wrong mode"); g = e.out; --nextB; }
            else if (e.op == UPD) { MC_CHECK(e.who > nextB && e.who < n && haveG, "layer " << e.who << " is updated before its backward pass"); MC_CHECK(++upd[e.who] == 1, "layer " << e.who << " is updated twice for one sample"); auto& o = next("the optimizer"); MC_CHECK(o.op == OPT && o.who == optId && o.a.v[0] == e.who && !o.mode, "layer " << e.who << " is updated with optimizer " << o.who << ", expected the compiled one, " << optId); }
            else MC_FAIL("unexpected event " << e.op);
        }
        MC_CHECK(haveG, "no loss gradient is taken for a sample"); MC_CHECK(nextB < 0, "layers 0.." << nextB << " are not run backward for a sample"); for (int k = 0; k < n; ++k) MC_CHECK(upd[k] == 1, "layer " << k << " is not updated for a sample"); MC_CHECK(losses > 0, "the loss of a sample is not computed");
        return sum;
    }
    void end() { MC_CHECK(at == events.size(), events.size() - at << " further operations, the first of kind " << events[at].op << " on " << events[at].who); }
};
static void epochsReported(const std::string& text, const std::vector<double>& means) { // one line per epoch, ending in the mean loss
    std::istringstream in(text); std::string line; size_t k = 0;
    while (std::getline(in, line)) { if (line.empty()) continue; MC_CHECK(k < means.size(), "more lines than epochs are reported: " << text); size_t e = line.find_last_of("0123456789"); MC_CHECK(e != std::string::npos, "no loss in the line '" << line << "'"); size_t s = e; while (s > 0 && strchr("0123456789.eE+-", line[s - 1])) --s; double v = atof(line.substr(s, e - s + 1).c_str()); MC_CHECK(std::fabs(v - means[k]) <= 1e-4 * (1 + std::fabs(means[k])), "epoch " << k << " reports the loss " << v << ", expected the mean " << means[k] << " ('" << line << "')"); ++k; }
    MC_CHECK(k == means.size(), k << " epochs are reported, " << means.size() << " were run");
}
static RT in(int i) { RT r = pat({1, 3}, 4, i * 5 + 1); r.v[0] += i; return rounded<float>(r); }
static RT tgt(int i) { RT r = pat({1, 3}, 2, i * 3 + 2); r.v[0] = 0.5 * i + 10; return rounded<float>(r); }
struct Model {
    SmartDNN<float> m; Judge j; int depth;
    Model(int d) : depth(d) { for (int k = 0; k < d; ++k) m.addLayer(Rec(k)); j.mode.assign(d, true); }
    void compile(int id) { m.compile(RecLoss(id), RecOpt(id)); j.lossId = j.optId = id; }
    void train(int n, int epochs) {
        events.clear(); j.at = 0; std::vector<Tensor<float>> x, t; for (int i = 0; i < n; ++i) { x.push_back(mk<float>(in(i))); t.push_back(mk<float>(tgt(i))); }
        MC_TRAIL("train " << n << " samples, " << epochs << " epochs"); Quiet q; m.train(x, t, epochs);
        std::vector<double> means; for (int e = 0; e < epochs; ++e) { double s = 0; for (int i = 0; i < n; ++i) s += j.sample(in(i), tgt(i)); means.push_back(s / n); }
        j.end(); if (n > 0) epochsReported(q.text(), means);
        for (int i = 0; i < n; ++i) { expectExact(x[i], in(i), "training input"); expectExact(t[i], tgt(i), "training target"); }
        mc::state(mc::mix(events.size(), n * 16 + epochs));
    }
    void predict(int i) { events.clear(); j.at = 0; MC_TRAIL("predict"); Tensor<float> y = m.predict(mk<float>(in(i))); RT w = j.forward(in(i)); j.end(); expectExact(y, w, "prediction"); }
    void predictList(const std::vector<int>& is) { events.clear(); j.at = 0; MC_TRAIL("predict list"); std::vector<Tensor<float>> x; for (int i : is) x.push_back(mk<float>(in(i))); auto y = m.predict(x); MC_CHECK(y.size() == is.size(), y.size() << " predictions for " << is.size() << " inputs"); for (size_t k = 0; k < is.size(); ++k) expectExact(y[k], j.forward(in(is[k])), "prediction " + std::to_string(k)); j.end(); }
    void modeTo(bool t) { events.clear(); MC_TRAIL((t ? "training mode" : "evaluation mode")); if (t) m.trainingMode(); else m.evalMode(); j.mode.assign(depth, t); MC_CHECK(events.empty(), "a mode switch runs something"); }
    void reject(int n, int k, int epochs) { events.clear(); std::vector<Tensor<float>> x, t; for (int i = 0; i < n; ++i) x.push_back(mk<float>(in(i))); for (int i = 0; i < k; ++i) t.push_back(mk<float>(tgt(i))); MC_TRAIL("train " << n << " inputs with " << k << " targets"); Quiet q; MC_CHECK(mc::throws([&] { m.train(x, t, epochs); }), "training with " << n << " inputs and " << k << " targets is accepted"); for (auto& e : events) MC_CHECK(e.op != UPD && e.op != OPT, "parameters are updated by a rejected training of " << n << " inputs with " << k << " targets"); }
};
// ---- real stacks ----
template <class T> void twin(const Net& net, const Dims& xd, int lossKind, const opts::Opt& o, int n, int epochs, bool eval) {
    RandomEngine::setSeed(11); SmartDNN<T> m; for (auto& l : net) add(m, l); nets::compile(m, lossKind, o);
    RandomEngine::setSeed(11); std::vector<std::unique_ptr<Layer<T>>> hand; for (auto& l : net) hand.push_back(real<T>(l)); auto ho = opts::make<T>(o); auto hl = loss<T>(lossKind);
    std::vector<Tensor<T>> xs, ts; for (int i = 0; i < n; ++i) { RT x = pat(xd, 4, i * 7); for (size_t q = 0; q < x.size(); ++q) x.v[q] = x.v[q] * 0.5 + 0.0625 * (double)((q * q + i) % 5); xs.push_back(mk<T>(x)); }
    RandomEngine::setSeed(5); Tensor<T> probe = xs[0]; { for (auto& l : hand) probe = l->forward(probe); } Dims yd = rd(probe).d; for (int i = 0; i < n; ++i) { RT t = pat(yd, 4, i * 3 + 1); if (lossKind) for (size_t q = 0; q < t.size(); ++q) t.v[q] = (q + i) % yd[1] == 0; ts.push_back(mk<T>(t)); }
    if (n == 2 && !lossKind) ts[0] = probe; // an exact prediction: loss and gradient are zero at first
    RandomEngine::setSeed(5); m.predict(xs[0]); // the same history for both
    if (eval) { m.evalMode(); for (auto& l : hand) l->setTrainingMode(false); }
    std::vector<double> means;
    for (int call = 0; call < 2; ++call) {
        RandomEngine::setSeed(77 + call); Quiet quiet; m.train(xs, ts, epochs);
        RandomEngine::setSeed(77 + call); for (int e = 0; e < epochs; ++e) for (int i = 0; i < n; ++i) { Tensor<T> v = xs[i]; for (auto& l : hand) v = l->forward(v); Tensor<T> g = hl->gradient(v, ts[i]); for (size_t k = hand.size(); k-- > 0;) g = hand[k]->backward(g); for (auto& l : hand) l->updateWeights(*ho); mc::step(); }
        for (size_t k = 0; k < net.size(); ++k) if (hasParams(net[k])) { auto a = params(*m.getLayer(k)), b = params(*hand[k]); MC_CHECK(a.size() == b.size(), "layer " << k << " has " << a.size() << " parameters"); for (size_t q = 0; q < a.size(); ++q) { MC_CHECK(a[q].d == b[q].d && a[q].v == b[q].v, str(net) << ": parameter " << q << " of layer " << k << " is " << ref::str(a[q]) << " after training, the same steps by hand give " << ref::str(b[q])); for (double x : a[q].v) MC_CHECK(std::isfinite(x), "parameter " << x); mc::state(hash(a[q])); } }
    }
    m.evalMode(); for (auto& l : hand) l->setTrainingMode(false);
    for (auto& x : xs) { Tensor<T> v = x; for (auto& l : hand) v = l->forward(v); expectExact(m.predict(x), rd(v), str(net) + ": prediction after training"); }
}
void explore() {
    bool full = mc::thorough();
    int D = full ? 6 : 4, N = full ? 6 : 4, E = full ? 5 : 4; mc::bound("recording stacks", "depths 0.." + std::to_string(D) + ", samples 1.." + std::to_string(N) + ", epochs 0.." + std::to_string(E));
    for (int d = 0; d <= D; ++d) for (int n = 1; n <= N; ++n) for (int e = 0; e <= E; ++e) mc::run([&] { return "stack of " + std::to_string(d) + ", " + std::to_string(n) + " samples, " + std::to_string(e) + " epochs"; }, [&] { Model m(d); m.compile(1); m.train(n, e); m.train(n, 1); });
    mc::bound("losses and gradients", "7 loss sequences (zero, constant, falling, rising, negative, tiny) x 3 gradients (distinct, zero, tiny), stacks of 0..3, samples 1..4, epochs 1..4 and runs of 12, 130 and 270");
    for (int lm = 0; lm < 7; ++lm) for (int gm = 0; gm < 3; ++gm) mc::run([&] { return std::string("loss ") + LM[lm] + ", gradient kind " + std::to_string(gm); }, [&] { struct R { ~R() { lossMode = gradMode = 0; } } r; lossMode = lm; gradMode = gm; for (int d = 0; d <= 3; ++d) for (int n = 1; n <= 4; ++n) for (int e = 1; e <= 4; ++e) { Model m(d); m.compile(1); m.train(n, e); } Model m(2); m.compile(1); m.train(2, 12); m.train(3, 2); Model q(2); q.compile(1); q.train(2, 270); q.train(1, 130); q.train(2, 1); });
    mc::bound("sample counts", "18 sample counts up to 257 and epoch counts up to 40");
    for (int n : {5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 129, 257}) mc::run([&] { return "stack of 2, " + std::to_string(n) + " samples"; }, [&] { Model m(2); m.compile(1); m.train(n, 2); if (n <= 40) m.train(1, n); });
    mc::bound("large runs", "stacks of up to 100 layers, up to 1100 samples, up to 300 epochs");
    for (int d : {5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100}) mc::run([&] { return "deep stack of " + std::to_string(d); }, [&] { Model m(d); m.compile(1); m.predict(0); m.train(2, 2); m.modeTo(false); m.predictList({0, 1, 2}); m.train(1, 1); m.predict(1); });
    for (int n : {255, 256, 300, 1000, 1100}) mc::run([&] { return std::to_string(n) + " samples"; }, [&] { Model m(1); m.compile(1); m.train(n, 2); std::vector<int> is; for (int i = 0; i < n; ++i) is.push_back(i); m.predictList(is); });
    for (int e : {99, 100, 101, 127, 128, 129, 255, 256, 257, 300}) mc::run([&] { return std::to_string(e) + " epochs"; }, [&] { Model m(2); m.compile(1); m.train(2, e); m.train(1, e); });
    int L = full ? 5 : 4; mc::bound("histories", "all words of length " + std::to_string(L) + " over {train 1x1, train 2x2, predict, predict list, evaluation, training mode, compile again, mismatched training} on stacks of 1..3");
    words(L, 8, [&](const std::vector<int>& w) { mc::run([&] { return "history " + vstr(w); }, [&] { for (int d = 1; d <= 3; ++d) { Model m(d); int id = 1; m.compile(id); int k = 0; for (int op : w) { ++k; switch (op) { case 0: m.train(1, 1); break; case 1: m.train(2, 2); break; case 2: m.predict(k); break; case 3: m.predictList({k, 0, k}); break; case 4: m.modeTo(false); break; case 5: m.modeTo(true); break; case 6: m.compile(++id); break; default: m.reject(1 + k % 2, 2 - k % 2, 1); } } m.train(2, 1); } }); });
    mc::bound("mismatches", "all pairs of 0..4 inputs and 0..4 targets of different number");
    for (int n = 0; n <= 4; ++n) for (int k = 0; k <= 4; ++k) if (n != k) mc::run([&] { return std::to_string(n) + " inputs, " + std::to_string(k) + " targets"; }, [&] { for (int d = 0; d <= 2; ++d) for (int e = 1; e <= 2; ++e) { Model m(d); m.compile(1); m.reject(n, k, e); m.train(2, 1); m.reject(n, k, e); m.train(1, 2); } });
    mc::run([&] { return std::string("training without compiling"); }, [&] { for (int d = 0; d <= 3; ++d) for (int n = 1; n <= 2; ++n) { Model m(d); m.reject(n, n, 1); m.predict(1); m.reject(n, n, 2); m.compile(3); m.train(n, 1); } });
    // real layers
    struct S { Net n; Dims x; int loss; }; std::vector<S> st;
    for (int b : {1, 3}) {
        for (int a = 0; a < acts::NKINDS; ++a) st.push_back({{fc(3, 4), act(a), fc(4, 2)}, {b, 3}, 0});
        st.push_back({{fc(3, 2)}, {b, 3}, 0}); st.push_back({{fc(3, 4), act(acts::RELU), fc(4, 3), act(acts::NKINDS)}, {b, 3}, 1}); st.push_back({{fc(3, 4), bn(4), act(acts::TANH), fc(4, 2)}, {b, 3}, 0}); st.push_back({{fc(3, 8), drop(0.5), fc(8, 2)}, {b, 3}, 0}); st.push_back({{drop(0.25), fc(3, 3), bn(3)}, {b, 3}, 0});
        st.push_back({{conv(2, 3, 2, 2), act(acts::RELU), pool(2, 1), flat(), fc(12, 3), act(acts::NKINDS)}, {b, 2, 4, 4}, 1}); st.push_back({{conv(1, 2, 3, 3, 1, 1), bn(2), act(acts::SWISH), pool(2, 2), conv(2, 2, 2, 2), flat(), fc(2, 3)}, {b, 1, 4, 4}, 0}); st.push_back({{conv(1, 2, 3, 2, 2, 1), drop(0.5), flat(), act(acts::MISH), fc(12, 2)}, {b, 1, 4, 5}, 0}); st.push_back({{flat(), fc(8, 2), act(acts::NKINDS)}, {b, 2, 2, 2}, 1}); st.push_back({{bn(2), flat(), fc(8, 2)}, {b, 2, 2, 2}, 0});
        st.push_back({{fc(3, 3), fc(3, 3), fc(3, 3)}, {b, 3}, 0}); st.push_back({{act(acts::SIGMOID), fc(3, 1)}, {b, 3}, 0}); st.push_back({{fc(3, 40), act(acts::LEAKY3), fc(40, 40), act(acts::MISH), fc(40, 1)}, {b, 3}, 0}); // 1600 weights: beyond Adam's parallel threshold
    }
    st.push_back({{fc(3, 4), act(acts::TANH), fc(4, 2)}, {3}, 0});
    auto os = optimizers(); mc::bound("real stacks", std::to_string(st.size()) + " stacks covering every layer kind, " + std::to_string(os.size()) + " optimizers, samples 1..3, epochs 1..3, both modes, two consecutive calls; with two samples the first one is predicted exactly at the start");
    for (auto& s : st) for (auto& o : os) for (int n = 1; n <= 3; ++n) for (int e = 1; e <= (full ? 4 : 3); ++e) mc::run([&] { return str(s.n) + " on " + ref::str(s.x) + ", " + opts::str(o) + ", " + std::to_string(n) + " samples, " + std::to_string(e) + " epochs"; }, [&] { twin<float>(s.n, s.x, s.loss, o, n, e, false); twin<float>(s.n, s.x, s.loss, o, n, e, true); if (e == 1) twin<double>(s.n, s.x, s.loss, o, n, e, false); });
    mc::bound("long trainings", "six stacks, all optimizers, one to three samples, two consecutive calls of 150 epochs: gradients become small");
    for (size_t q : {size_t(0), size_t(7), size_t(8), size_t(9), size_t(10), st.size() - 1}) for (auto& o : os) for (int n = 1; n <= 3; ++n) mc::run([&] { return "150 epochs of " + str(st[q].n) + " on " + ref::str(st[q].x) + ", " + opts::str(o) + ", " + std::to_string(n) + " samples"; }, [&] { twin<float>(st[q].n, st[q].x, st[q].loss, o, n, full ? 600 : 150, false); });
}

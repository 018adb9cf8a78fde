// C24: prediction in evaluation mode is a pure function, whatever happens in between that does not train.
#include "nets.hpp"
using namespace nets;
struct S { Net n; std::vector<Dims> x; int loss; };
static RT value(const Dims& d, int i) { RT x = pat(d, 4, i * 7); for (size_t q = 0; q < x.size(); ++q) x.v[q] = x.v[q] * 0.5 + 0.0625 * (double)((q * q + i) % 5); return x; }
template <class T> struct World {
    const S& s; SmartDNN<T> m; std::vector<std::unique_ptr<Layer<T>>> hand; std::unique_ptr<Loss<T>> hl; std::unique_ptr<Optimizer<T>> ho; bool training = true; std::vector<Tensor<T>> x; std::vector<std::unique_ptr<RT>> memo; std::vector<RT> par;
    World(const S& s, const opts::Opt& o) : s(s), hl(loss<T>(s.loss)), ho(opts::make<T>(o)) {
        RandomEngine::setSeed(3); for (auto& l : s.n) add(m, l); nets::compile(m, s.loss, o); RandomEngine::setSeed(3); for (auto& l : s.n) hand.push_back(real<T>(l));
        for (size_t i = 0; i < s.x.size(); ++i) x.push_back(mk<T>(value(s.x[i], (int)i))); memo.resize(x.size()); train(0); par = all();
    }
    std::vector<RT> all() { std::vector<RT> r; for (size_t k = 0; k < s.n.size(); ++k) if (hasParams(s.n[k])) for (auto& p : params(*m.getLayer(k))) r.push_back(p); return r; }
    Tensor<T> byHand(const Tensor<T>& in) { Tensor<T> v = in; for (auto& l : hand) v = l->forward(v); return v; }
    void forget() { for (auto& p : memo) p.reset(); }
    void train(int i) {
        MC_TRAIL("train"); auto e = RandomEngine::getInstance(); Dims yd; { World* w = this; std::vector<std::unique_ptr<Layer<T>>> tmp; RandomEngine::setSeed(3); for (auto& l : w->s.n) tmp.push_back(real<T>(l)); Tensor<T> v = x[i]; for (auto& l : tmp) v = l->forward(v); yd = rd(v).d; }
        RT t = pat(yd, 4, 5); if (s.loss) for (size_t q = 0; q < t.size(); ++q) t.v[q] = q % yd[1] == 1; Tensor<T> tt = mk<T>(t);
        RandomEngine::getInstance() = e; { Quiet q; m.train({x[i]}, {tt}, 1); }
        RandomEngine::getInstance() = e; { Tensor<T> v = byHand(x[i]), g = hl->gradient(v, tt); for (size_t k = hand.size(); k-- > 0;) g = hand[k]->backward(g); for (auto& l : hand) l->updateWeights(*ho); }
        forget(); par = all();
    }
    void judge(const Tensor<T>& y, const RT& want, int i, const char* how) {
        expectExact(y, want, str(s.n) + ": " + how + " of input " + std::to_string(i) + (training ? " (training mode)" : " (evaluation mode)") + " compared with the composition of the layers"); expectExact(x[i], rounded<T>(value(s.x[i], i)), "the input");
        if (!training) { if (memo[i]) MC_CHECK(memo[i]->d == rd(y).d && memo[i]->v == rd(y).v, str(s.n) << ": " << how << " of input " << i << " is " << ref::str(rd(y)) << ", it was " << ref::str(*memo[i]) << " before"); else memo[i].reset(new RT(rd(y))); } else { mc::state(hash(rd(y))); forget(); }
        mc::state(hash(rd(y)));
    }
    void predict(int i) { MC_TRAIL("predict " << i); auto e = RandomEngine::getInstance(); Tensor<T> y = m.predict(x[i]); auto after = RandomEngine::getInstance(); RandomEngine::getInstance() = e; RT w = rd(byHand(x[i])); MC_CHECK(training || after == e, str(s.n) << ": a prediction in evaluation mode consumes random numbers"); judge(y, w, i, "prediction"); same(); }
    void list(const std::vector<int>& is) {
        MC_TRAIL("predict list " << vstr(is)); auto e = RandomEngine::getInstance(); std::vector<Tensor<T>> in; for (int i : is) in.push_back(x[i]); auto y = m.predict(in); RandomEngine::getInstance() = e;
        MC_CHECK(y.size() == is.size(), y.size() << " outputs for a list of " << is.size()); std::vector<RT> w; for (int i : is) w.push_back(rd(byHand(x[i]))); for (size_t k = 0; k < is.size(); ++k) { judge(y[k], w[k], is[k], "list prediction"); expectExact(in[k], rounded<T>(value(s.x[is[k]], is[k])), "the list"); } same();
    }
    void mode(bool t) { MC_TRAIL((t ? "training mode" : "evaluation mode")); training = t; if (t) m.trainingMode(); else m.evalMode(); for (auto& l : hand) l->setTrainingMode(t); same(); }
    void same() { auto a = all(); for (size_t k = 0; k < a.size(); ++k) MC_CHECK(a[k].d == par[k].d && a[k].v == par[k].v, str(s.n) << ": parameter " << k << " changed from " << ref::str(par[k]) << " to " << ref::str(a[k]) << " without training"); }
};
void explore() {
    std::vector<S> st; auto sm = [](Net n, Dims d, int l) { std::vector<Dims> x; for (int b : {2, 1, 3}) { d[0] = b; x.push_back(d); } return S{n, x, l}; };
    st.push_back(sm({fc(3, 4), act(acts::RELU), fc(4, 3), act(acts::NKINDS)}, {2, 3}, 1)); st.push_back(sm({fc(3, 4), bn(4), act(acts::TANH), fc(4, 2)}, {2, 3}, 0)); st.push_back(sm({fc(3, 8), drop(0.5), fc(8, 2)}, {2, 3}, 0)); st.push_back(sm({bn(3), drop(0.5)}, {2, 3}, 0)); st.push_back(sm({drop(0.5), bn(3), act(acts::SIGMOID), bn(3)}, {2, 3}, 0));
    st.push_back(sm({conv(2, 2, 2, 2, 1, 1), bn(2), act(acts::LEAKY), drop(0.25), pool(2, 2), flat(), fc(8, 2)}, {2, 2, 3, 4}, 0)); st.push_back(sm({pool(2, 1), flat(), act(acts::SWISH), fc(4, 2)}, {2, 1, 3, 3}, 0)); st.push_back(sm({flat(), drop(0.5), act(acts::MISH), act(acts::LEAKY3)}, {2, 2, 2}, 0));
    st.push_back({{fc(3, 2), act(acts::SIGMOID)}, {{3}, {2, 3}, {1, 3}}, 0}); st.push_back(sm({drop(0.5)}, {2, 2, 2}, 0));
    auto os = optimizers(); int L = mc::thorough() ? 5 : 3; mc::bound("histories", "all words of length " + std::to_string(L) + " over {predict a, predict b, predict list, predict empty list, evaluation, training mode, train}, started in evaluation mode and followed by predictions in both modes"); mc::bound("stacks", std::to_string(st.size()) + " stacks with every layer kind, three inputs of different batch sizes");
    for (size_t q = 0; q < st.size(); ++q) words(L, 7, [&](const std::vector<int>& w) { mc::run([&] { return str(st[q].n) + ", history " + vstr(w); }, [&] {
        World<float> r(st[q], os[(q + w[0]) % os.size()]); r.mode(false); r.predict(0); r.predict(1);
        for (int op : w) switch (op) { case 0: r.predict(0); break; case 1: r.predict(1); break; case 2: r.list({2, 0, 1, 0}); break; case 3: r.list({}); break; case 4: r.mode(false); break; case 5: r.mode(true); break; default: r.train(1); }
        r.predict(0); r.list({1, 2}); r.mode(false); r.predict(0); r.predict(2); r.list({2, 2, 0}); r.predict(0); r.mode(true); r.predict(1); r.mode(false); r.predict(1); r.predict(1); r.predict(0);
    }); });
    // many predictions, and lists of every small length over the inputs
    int M = mc::thorough() ? 5 : 4; mc::bound("lists", "all lists of up to " + std::to_string(M) + " inputs over 3");
    for (size_t q = 0; q < st.size(); ++q) for (int len = 0; len <= M; ++len) words(len, 3, [&](const std::vector<int>& w) { mc::run([&] { return str(st[q].n) + ", list " + vstr(w); }, [&] { World<double> r(st[q], os[q % os.size()]); r.mode(false); r.list(w); for (int i : w) r.predict(i); r.list(w); }); });
    for (size_t q = 0; q < st.size(); ++q) mc::run([&] { return str(st[q].n) + ", 300 predictions"; }, [&] { World<float> r(st[q], os[q % os.size()]); r.mode(false); for (int k = 0; k < 300; ++k) r.predict(k * k % 3); });
    // long lists, large batches, deep models
    std::vector<S> big = {{{fc(3, 4), bn(4), act(acts::TANH), drop(0.25), fc(4, 2)}, {{130, 3}, {1, 3}, {65, 3}}, 0}, {{conv(1, 2, 3, 3, 1, 1), bn(2), act(acts::RELU), pool(2, 2), flat(), fc(8, 3), act(acts::NKINDS)}, {{33, 1, 4, 4}, {1, 1, 4, 4}, {2, 1, 4, 4}}, 1}, {{fc(40, 33), act(acts::LEAKY), fc(33, 70), act(acts::MISH)}, {{2, 40}, {17, 40}, {1, 40}}, 0}};
    { Net deep; for (int k = 0; k < 7; ++k) { deep.push_back(fc(3, 3)); deep.push_back(act(k % 2 ? acts::SIGMOID : acts::TANH)); deep.push_back(k % 3 ? bn(3) : drop(0.25)); } big.push_back({deep, {{4, 3}, {1, 3}, {9, 3}}, 0}); }
    for (auto& b : st) big.push_back(b);
    mc::bound("large", "batches of up to 130 samples, stacks of 21 layers, lists of 5 to 300 inputs, before and after training");
    for (size_t q = 0; q < big.size(); ++q) for (int n : {5, 8, 9, 16, 17, 33, 64, 65, 128, 300}) mc::run([&] { return str(big[q].n) + ", list of " + std::to_string(n); }, [&] { World<float> r(big[q], os[(q + n) % os.size()]); r.mode(false); std::vector<int> w; for (int k = 0; k < n; ++k) w.push_back((k * k + k / 5) % 3); r.list(w); for (int i : {0, 1, 2}) r.predict(i); r.mode(true); r.train(1); r.mode(false); r.list(w); r.predict(0); });
    mc::bound("mode switches", "every switch reaches every layer: stacks of 1..4 recording layers, all words of 6 switches");
    struct M1 : Layer<float> { std::vector<int>* log; int id; M1(std::vector<int>* l, int i) : log(l), id(i) {} Tensor<float> forward(const Tensor<float>& x) override { log->push_back(id * 2 + trainingMode); return x; } Tensor<float> backward(const Tensor<float>& x) override { return x; } };
    for (int d = 1; d <= 4; ++d) words(6, 2, [&](const std::vector<int>& w) { mc::run([&] { return std::to_string(d) + " layers, modes " + vstr(w); }, [&] {
        std::vector<int> log; SmartDNN<float> m; for (int k = 0; k < d; ++k) m.addLayer(M1(&log, k)); bool t = true; Tensor<float> x({1, 2}, 1.0f);
        auto ask = [&] { for (int rep = 0; rep < 2; ++rep) { log.clear(); m.predict(x); MC_CHECK((int)log.size() == d, "forward of " << log.size() << " layers"); for (int k = 0; k < d; ++k) MC_CHECK(log[k] == k * 2 + t, "layer " << log[k] / 2 << " runs in " << (log[k] % 2 ? "training" : "evaluation") << " mode in place " << k << ", expected " << (t ? "training" : "evaluation")); mc::step(); } };
        ask(); for (int op : w) { t = op; if (t) m.trainingMode(); else m.evalMode(); ask(); }
    }); });
}

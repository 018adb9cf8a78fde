// C30: a model is a function of the seed, its architecture, data and options; models do not influence each other.
#include <algorithm>
#include <set>
#include "nets.hpp"
using namespace nets;
typedef std::vector<double> Obs; // everything observed of a model, bit for bit
struct Cfg { Net n; Dims x, y; int loss; opts::Opt o; };
static std::string str(const Cfg& c) { return nets::str(c.n) + (c.loss ? " cross-entropy " : " MSE ") + opts::str(c.o); }
template <class T> struct Inst { // one model and its history; every step starts from its own seed, so that draws of others in between do not matter
    const Cfg& c; unsigned seed; std::unique_ptr<SmartDNN<T>> m; Obs obs; int at = 0; bool reseed;
    Inst(const Cfg& c, unsigned s, bool reseed = true) : c(c), seed(s), reseed(reseed) {}
    void see(const Tensor<T>& t) { RT r = rd(t); for (int d : r.d) obs.push_back(d); obs.insert(obs.end(), r.v.begin(), r.v.end()); }
    Tensor<T> x(int i) const { return mk<T>(map(pat(c.x, 4, (size_t)i * 11 + 3), [](double v) { return v * 0.5; })); }
    Tensor<T> y(int i) const { RT t = pat(c.y, 4, (size_t)i * 5 + 1); if (c.loss) for (size_t q = 0; q < t.size(); ++q) t.v[q] = (int)(q % c.y[1]) == i % c.y[1]; return mk<T>(t); }
    void params() { for (size_t k = 0; k < c.n.size(); ++k) if (hasParams(c.n[k])) for (auto& p : nets::params<T>(*m->getLayer(k))) obs.insert(obs.end(), p.v.begin(), p.v.end()); }
    static int steps() { return 5; }
    void step() {
        if (reseed || at == 0) RandomEngine::setSeed(seed * 100 + (unsigned)at); Quiet q;
        switch (at++) {
            case 0: m.reset(new SmartDNN<T>()); for (auto& l : c.n) add(*m, l); nets::compile(*m, c.loss, c.o); m->evalMode(); see(m->predict(x(4))); m->trainingMode(); break;
            case 1: m->train({x(0), x(1)}, {y(0), y(1)}, 2); params(); break;
            case 2: m->evalMode(); see(m->predict(x(2))); for (auto& t : m->predict({x(0), x(3)})) see(t); m->trainingMode(); break;
            case 3: m->train({x(1)}, {y(1)}, 1); params(); break;
            default: m->evalMode(); see(m->predict(x(1))); m.reset();
        }
    }
    Obs all() { while (at < steps()) step(); return obs; }
};
static std::string diff(const Obs& a, const Obs& b) { std::ostringstream o; o.precision(17); if (a.size() != b.size()) { o << a.size() << " observed values, " << b.size() << " expected"; return o.str(); } for (size_t i = 0; i < a.size(); ++i) if (!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])))) { o << "observed value " << i << " is " << a[i] << ", expected " << b[i]; return o.str(); } return ""; }
static uint64_t hash(const Obs& a) { uint64_t h = 9; for (double x : a) { uint64_t b; memcpy(&b, &x, 8); h = mc::mix(h, b); } return h; }
static std::vector<Cfg> configs() {
    auto os = optimizers(); std::vector<Cfg> r;
    for (auto& o : os) {
        r.push_back({{fc(3, 4), act(acts::RELU), fc(4, 2)}, {2, 3}, {2, 2}, 0, o}); r.push_back({{fc(3, 4), act(acts::SIGMOID), fc(4, 3), act(acts::NKINDS)}, {2, 3}, {2, 3}, 1, o});
        r.push_back({{conv(1, 2, 2, 2), bn(2), act(acts::LEAKY), pool(2, 1), flat(), fc(8, 2)}, {2, 1, 4, 4}, {2, 2}, 0, o}); r.push_back({{fc(3, 4), bn(4), drop(0.5), act(acts::TANH), fc(4, 2)}, {3, 3}, {3, 2}, 0, o});
        r.push_back({{drop(0.3), flat(), act(acts::SWISH), fc(4, 3)}, {2, 2, 2}, {2, 3}, 0, o}); r.push_back({{fc(2, 2), act(acts::MISH)}, {2, 2}, {2, 2}, 0, o});
    }
    return r;
}
// things that may happen before the seed is set
struct Activity { std::string name; std::function<void()> f; };
static std::vector<std::unique_ptr<SmartDNN<float>>> alive;
static std::vector<Activity> activities(const std::vector<Cfg>& cs) {
    std::vector<Activity> r;
    r.push_back({"getRand", [] { RandomEngine::getRand(); }}); r.push_back({"getRandRange", [] { RandomEngine::getRandRange(-2, 5); }}); r.push_back({"getXavierInit", [] { RandomEngine::getXavierInit(3); }}); r.push_back({"getHeInit three times", [] { for (int i = 0; i < 3; ++i) RandomEngine::getHeInit(2); }}); r.push_back({"getHeRandRange", [] { RandomEngine::getHeRandRange(3, -1, 1); }});
    r.push_back({"the same seed and five draws", [] { RandomEngine::setSeed(300); for (int i = 0; i < 5; ++i) RandomEngine::getHeInit(2); }});
    r.push_back({"setSeed(77)", [] { RandomEngine::setSeed(77); }}); r.push_back({"discarding a thousand draws", [] { RandomEngine::getInstance().discard(1000); }});
    r.push_back({"Tensor::rand and randn", [] { Tensor<float>::rand({3, 3}); Tensor<double>::randn({5}, -1, 1); }});
    r.push_back({"using a dropout layer", [] { DropoutLayer<float> d(0.5f); d.forward(Tensor<float>::ones(Shape{3, 3})); }});
    r.push_back({"another seeded model trained and destroyed", [&cs] { Inst<float>(cs[1], 55).all(); }});
    r.push_back({"the same kind of model trained in double", [&cs] { Inst<double>(cs[0], 1).all(); }});
    r.push_back({"a convolutional model trained with dropout kept alive", [&cs] { Inst<float> i(cs[3], 4); i.step(); i.step(); alive.push_back(std::move(i.m)); }});
    r.push_back({"training that fails", [&cs] { Inst<float> i(cs[0], 4); i.step(); Quiet q; try { i.m->train({i.x(0), mk<float>(RT({2, 7}, 1))}, {i.y(0), i.y(0)}, 2); } catch (const std::exception&) {} }});
    r.push_back({"a kept model trained on", [] { if (!alive.empty()) { Quiet q; alive.back()->train({mk<float>(RT({3, 3}, 0.5))}, {mk<float>(RT({3, 2}, 0.25))}, 1); } }});
    r.push_back({"kept models destroyed", [] { alive.clear(); }});
    return r;
}
template <class T> void independent(const std::vector<Cfg>& cs, int i, int j, bool sameSeed, unsigned part, unsigned parts) {
    unsigned sa = 5, sb = sameSeed ? 5 : 6; std::string w = "A: " + str(cs[i]) + "; B: " + str(cs[j]);
    Obs a = Inst<T>(cs[i], sa).all(), b = Inst<T>(cs[j], sb).all(); mc::outcome(hash(a)); mc::outcome(hash(b));
    if (i == j && !sameSeed) MC_CHECK(!diff(a, b).empty(), w << ": two seeds give the same model");
    int n = Inst<T>::steps();
    for (unsigned word = 0; word < (1u << (2 * n)); ++word) { if (__builtin_popcount(word) != n || word % parts != part) continue;
        Inst<T> A(cs[i], sa), B(cs[j], sb); std::string order; for (int k = 0; k < 2 * n; ++k) order += word >> k & 1 ? 'A' : 'B'; MC_TRAIL("interleaving " << order); // A and B are created early and their models at their first step
        for (char ch : order) { (ch == 'A' ? A : B).step(); mc::step(); }
        std::string da = diff(A.obs, a), db = diff(B.obs, b); MC_CHECK(da.empty(), w << "; interleaved as " << order << ", A: " << da << " when alone"); MC_CHECK(db.empty(), w << "; interleaved as " << order << ", B: " << db << " when alone"); mc::trace(); mc::state(mc::mix(hash(a) ^ hash(b), word));
    }
}
template <class T> void three(const std::vector<Cfg>& cs, int i, int j, int k) { // three models, two steps each after building: all interleavings
    std::vector<int> c = {i, j, k}; std::vector<Obs> alone; for (int q = 0; q < 3; ++q) { Inst<T> a(cs[c[q]], 5 + q); for (int s = 0; s < 3; ++s) a.step(); alone.push_back(a.obs); }
    std::string order = "AAABBBCCC"; do { std::vector<std::unique_ptr<Inst<T>>> m; for (int q = 0; q < 3; ++q) m.emplace_back(new Inst<T>(cs[c[q]], 5 + q)); for (char ch : order) { m[ch - 'A']->step(); mc::step(); } for (int q = 0; q < 3; ++q) { std::string d = diff(m[q]->obs, alone[q]); MC_CHECK(d.empty(), "models " << str(cs[i]) << ", " << str(cs[j]) << ", " << str(cs[k]) << " interleaved as " << order << ": model " << q << ": " << d << " when alone"); } mc::trace(); mc::state(mc::mix(std::hash<std::string>()(order), i * 10000 + j * 100 + k)); } while (std::next_permutation(order.begin(), order.end()));
}
// two models assembled from the very same layer and optimizer objects hold copies
static void copies() {
    for (int kind = 0; kind < 3; ++kind) mc::run([&] { return "models assembled from the same objects, optimizer " + std::to_string(kind); }, [&] {
        RandomEngine::setSeed(9); FullyConnectedLayer<float> l(3, 2); MSELoss<float> loss; SGDOptimizer<float> s; RMSPropOptimizer<float> r; AdamOptimizer<float> a; Quiet q; RT x = pat({2, 3}, 4, 1), t = pat({2, 2}, 4, 2), x2 = pat({2, 3}, 4, 5);
        auto build = [&](SmartDNN<float>& m) { m.addLayer(l); if (kind == 0) m.compile(loss, s); else if (kind == 1) m.compile(loss, r); else m.compile(loss, a); };
        auto obs = [&](SmartDNN<float>& m) { Obs o; for (auto& p : params<float>(*m.getLayer(0))) o.insert(o.end(), p.v.begin(), p.v.end()); RT y = rd(m.predict(mk<float>(x2))); o.insert(o.end(), y.v.begin(), y.v.end()); return o; };
        auto train = [&](SmartDNN<float>& m, int k) { m.train({mk<float>(k ? x2 : x)}, {mk<float>(t)}, 1); };
        std::vector<Obs> alone; for (int k = 0; k < 2; ++k) { SmartDNN<float> m; build(m); for (int i = 0; i < 3; ++i) train(m, k); alone.push_back(obs(m)); }
        std::string order = "000111"; do { SmartDNN<float> m[2]; build(m[0]); build(m[1]); for (char c : order) { train(m[c - '0'], c - '0'); mc::step(); } for (int k = 0; k < 2; ++k) { std::string d = diff(obs(m[k]), alone[k]); MC_CHECK(d.empty(), "two models assembled from the same objects, trained in the order " << order << ": model " << k << ": " << d << " when alone"); } mc::trace(); mc::state(std::hash<std::string>()(order) + kind); } while (std::next_permutation(order.begin(), order.end()));
    });
}
// the same for every kind of layer that can be copied, the original objects being used in between as well
template <class T> static void copiesOfAll(const opts::Opt& o, bool usedBefore) {
    RandomEngine::setSeed(9); Conv2DLayer<T> c(1, 2, 2, 2, 1, 0, 1); BatchNormalizationLayer<T> b(2); MaxPooling2DLayer<T> p(2, 1); FlattenLayer<T> f; DropoutLayer<T> d(T(0.25)); FullyConnectedLayer<T> l(8, 2); Quiet q;
    std::vector<Layer<T>*> mine = {&c, &b, &p, &f, &d, &l}; auto op = opts::make<T>(o); size_t uses = 0;
    auto x = [&](int k) { return mk<T>(map(pat({2, 1, 4, 4}, 4, (size_t)k * 11 + 3), [](double v) { return v * 0.5; })); }; auto t = [&](int k) { return mk<T>(pat({2, 2}, 4, (size_t)k * 5 + 1)); };
    auto use = [&](bool mode) { RandomEngine::setSeed(500 + (unsigned)uses); Tensor<T> h = x(20 + (int)uses++); for (auto* y : mine) { y->setTrainingMode(mode); h = y->forward(h); } if (!mode) return; for (size_t k = mine.size(); k-- > 0;) h = mine[k]->backward(h); for (auto* y : mine) y->updateWeights(*op); };
    if (usedBefore) use(true);
    for (auto* y : mine) y->setTrainingMode(true);
    auto build = [&](SmartDNN<T>& m) { m.addLayer(c); m.addLayer(b); m.addLayer(ActivationLayer<T>(Tanh<T>())); m.addLayer(p); m.addLayer(f); m.addLayer(d); m.addLayer(l); nets::compile(m, 0, o); };
    auto train = [&](SmartDNN<T>& m, int k, int at) { RandomEngine::setSeed(70 + (unsigned)(k * 10 + at)); m.train({x(k), x(at + 3)}, {t(k), t(at)}, 1); };
    auto obs = [&](SmartDNN<T>& m) { Obs r; for (size_t k : {0, 1, 6}) for (auto& w : params<T>(*m.getLayer(k))) r.insert(r.end(), w.v.begin(), w.v.end()); m.evalMode(); RT y = rd(m.predict(x(9))); r.insert(r.end(), y.v.begin(), y.v.end()); return r; };
    SmartDNN<T> m[5]; for (auto& k : m) build(k); // all copies of the same originals
    std::vector<Obs> alone; for (int k = 0; k < 2; ++k) { for (int i = 0; i < 3; ++i) train(m[k], k, i); alone.push_back(obs(m[k])); }
    // two copies trained in turn, the originals used in between (training or evaluation) before every step but the first
    int at[2] = {0, 0}; std::string word; for (int k : {0, 1, 1, 0, 1, 0}) { if (!word.empty()) use(k == 0); train(m[2 + k], k, at[k]++); word += (char)('0' + k); mc::step(); }
    for (int k = 0; k < 2; ++k) { std::string e = diff(obs(m[2 + k]), alone[k]); MC_CHECK(e.empty(), "models assembled from the same layer objects, in turn with uses of these objects: model " << k << ": " << e << " when alone"); }
    SmartDNN<T> late; build(late); use(false); // the originals have been used: a copy starts from their present state and the others from theirs
    for (int i = 0; i < 3; ++i) train(m[4], 0, i);
    { std::string e = diff(obs(m[4]), alone[0]); MC_CHECK(e.empty(), "a model assembled before its layer objects were used further: " << e << " expected"); }
    Obs before = obs(late); use(true); use(false); std::string e = diff(obs(late), before); MC_CHECK(e.empty(), "a model changes when the objects it was assembled from are used: " << e << " before"); mc::trace(3); mc::state(hash(before)); mc::step(6);
}
void explore() {
    bool full = mc::thorough(); auto cs = configs(); auto as = activities(cs); int L = full ? 3 : 2;
    mc::bound("configurations", std::to_string(cs.size()) + " networks with optimizers and losses"); mc::bound("activities before the seed", "all words of length at most " + std::to_string(L) + " over " + std::to_string(as.size()) + " activities (draws of every kind, other models trained, kept, failed, destroyed)");
    mc::bound("interleavings", "all 252 interleavings of two histories of five steps (build, train, predict, train on, predict and destroy) for pairs of configurations, all 1680 of three histories of three steps");
    for (size_t c = 0; c < cs.size(); ++c) for (size_t first = 0; first < as.size(); ++first) mc::run([&] { return str(cs[c]) + " after " + as[first].name + " and further activities"; }, [&] {
        Obs want = Inst<float>(cs[c], 3, false).all(); std::vector<std::vector<size_t>> words = {{first}};
        for (size_t i = 0; i < words.size(); ++i) {
            auto w = words[i]; std::string t; for (size_t a : w) { t += (t.empty() ? "" : ", ") + as[a].name; MC_TRAIL(as[a].name); as[a].f(); }
            MC_TRAIL("the model, seeded"); Obs got = Inst<float>(cs[c], 3, false).all(); std::string d = diff(got, want); MC_CHECK(d.empty(), str(cs[c]) << " seeded after " << t << ": " << d); mc::step(); mc::trace(); uint64_t h = c; for (size_t a : w) h = mc::mix(h, a); mc::state(h); mc::outcome(hash(got));
            if ((int)w.size() < L && (full ? w.size() < 2 || c % 6 == i % 6 : true)) for (size_t a = 0; a < as.size(); ++a) { auto v = w; v.push_back(a); words.push_back(v); }
        }
        alive.clear();
    });
    mc::bound("seeds", "0..49 and extreme ones: repeated and all different");
    mc::run([&] { return std::string("seeds"); }, [&] { std::vector<unsigned> seeds; for (unsigned s = 0; s < 50; ++s) seeds.push_back(s); for (unsigned s : {1000u, 0x7fffffffu, 0x80000000u, 0xffffffffu}) seeds.push_back(s); std::set<uint64_t> seen; auto one = [&](unsigned s) { RandomEngine::setSeed(s); SmartDNN<float> m; add(m, fc(3, 4)); add(m, drop(0.5)); add(m, fc(4, 2)); Obs o; for (int k = 0; k < 4; ++k) { RT y = rd(m.predict(mk<float>(pat({2, 3}, 4, k)))); o.insert(o.end(), y.v.begin(), y.v.end()); } return o; };
        std::vector<Obs> a; for (unsigned s : seeds) { a.push_back(one(s)); MC_CHECK(seen.insert(hash(a.back())).second, "seed " << s << " gives the same model as another seed"); } for (size_t i = seeds.size(); i-- > 0;) { std::string d = diff(one(seeds[i]), a[i]); MC_CHECK(d.empty(), "seed " << seeds[i] << " again: " << d); mc::step(2); } });
    for (size_t i = 0; i < cs.size(); ++i) for (size_t j = i; j < cs.size(); ++j) if (full || i == j || i / 6 == j / 6 || i % 6 == j % 6) for (unsigned part = 0; part < 4; ++part) mc::run([&] { return "interleavings of " + str(cs[i]) + " and " + str(cs[j]) + ", part " + std::to_string(part); }, [&] { independent<float>(cs, (int)i, (int)j, false, part, 4); if (i == j) { independent<float>(cs, (int)i, (int)j, true, part, 4); independent<double>(cs, (int)i, (int)j, false, part, 4); } });
    for (size_t i = 0; i + 2 < cs.size(); i += full ? 1 : 4) mc::run([&] { return "interleavings of three models from " + str(cs[i]); }, [&] { three<float>(cs, (int)i, (int)i + 1, (int)i + 2); });
    copies();
    mc::bound("assembled from the same objects", "five models assembled from one set of layer objects of all copyable kinds, trained alone, in turn, and with the objects themselves used in between, every optimizer configuration, float and double");
    for (auto& o : optimizers()) for (int u = 0; u < 2; ++u) mc::run([&] { return "models assembled from layer objects of every kind, " + opts::str(o) + (u ? ", used before" : ""); }, [&] { copiesOfAll<float>(o, u); copiesOfAll<double>(o, u); });
}

// C38: a layer, loss, optimizer or activation of the user's that fails makes the operation fail, at once and with the same
// exception, and leaves the model usable.
#include "nets.hpp"
using namespace nets;
// ---- stand-ins that record what they are asked to do, and fail where they are told to ----
enum Op { FWD, BWD, UPD, LOSS, GRAD, OPT, MODE, COPY };
struct Ev { int op, who; bool mode; RT a, b; bool operator==(const Ev& e) const { return op == e.op && who == e.who && mode == e.mode && a == e.a && b == e.b; } };
static std::vector<Ev> events; static long failAt = -1; static int failKind = 0; static long alive = 0; static bool copiesCount = false;
struct Own { int x; }; struct OwnStd : std::exception { const char* what() const noexcept override { return "own"; } };
static void event(int op, int who, bool mode, const RT& a, const RT& b) {
    events.push_back({op, who, mode, a, b});
    if (failAt >= 0 && (long)events.size() - 1 == failAt) switch (failKind) { case 0: throw std::runtime_error("failure 17"); case 1: throw std::bad_alloc(); case 2: throw 4711; case 3: throw Own{23}; case 4: throw OwnStd(); default: throw std::invalid_argument("wrong"); }
}
static const int KINDS = 6; static const char* KN[] = {"runtime_error", "bad_alloc", "int", "own struct", "own exception", "invalid_argument"};
struct Life { Life() { ++alive; } Life(const Life&) { if (copiesCount) event(COPY, 0, false, RT(), RT()); ++alive; } Life(Life&&) { if (copiesCount) event(COPY, 1, false, RT(), RT()); ++alive; } ~Life() { --alive; } };
struct Rec : Layer<float> { Life life; int id; Rec(int i) : id(i) {}
    Tensor<float> forward(const Tensor<float>& x) override { event(FWD, id, trainingMode, rd(x), RT()); return mk<float>(map(rd(x), [&](double v) { return float(2 * v + id); })); }
    Tensor<float> backward(const Tensor<float>& u) override { event(BWD, id, trainingMode, rd(u), RT()); return mk<float>(map(rd(u), [&](double v) { return float(v * 0.5 - id); })); }
    void updateWeights(Optimizer<float>& o) override { event(UPD, id, trainingMode, RT(), RT()); Tensor<float> w({1}, float(id)), g({1}, 1.0f); o.optimize({std::ref(w)}, {std::ref(g)}); }
    void setTrainingMode(bool m) override { event(MODE, id, m, RT(), RT()); Layer<float>::setTrainingMode(m); } };
struct RecLoss : Loss<float> { Life life; int id; RecLoss(int i) : id(i) {}
    Tensor<float> compute(const Tensor<float>& p, const Tensor<float>& t) override { event(LOSS, id, false, rd(p), rd(t)); return Tensor<float>({1}, float(rd(p).v[0])); }
    Tensor<float> gradient(const Tensor<float>& p, const Tensor<float>& t) override { event(GRAD, id, false, rd(p), rd(t)); return mk<float>(map(rd(p), [&](double v) { return float(v - rd(t).v[0]); })); } };
struct RecOpt : Optimizer<float> { Life life; int id; RecOpt(int i) : id(i) {} void optimize(const std::vector<std::reference_wrapper<Tensor<float>>>& w, const std::vector<std::reference_wrapper<Tensor<float>>>&, float lr) override { event(OPT, id, lr > 0, rd(w[0].get()), RT()); } };
// runs f; the fault must come out as it was thrown
template <class F> bool faultComesOut(F f) {
    int got = -1; std::string what;
    try { f(); return false; }
    catch (const std::bad_alloc&) { got = 1; } catch (const OwnStd&) { got = 4; } catch (const std::invalid_argument& e) { got = 5; what = e.what(); if (what != "wrong") got = 100; } catch (const std::runtime_error& e) { got = 0; what = e.what(); if (what != "failure 17") got = 100; } catch (const std::exception& e) { got = 101; what = e.what(); } catch (int x) { got = x == 4711 ? 2 : 102; } catch (const Own& o) { got = o.x == 23 ? 3 : 103; }
    MC_CHECK(got == failKind, "a fault of kind " << KN[failKind] << " comes out as another exception (" << got << ", '" << what << "')"); return true;
}
static std::string show(const Ev& e) { static const char* n[] = {"forward", "backward", "update", "loss", "loss gradient", "optimizer", "mode switch", "copy"}; return std::string(n[e.op]) + " of " + std::to_string(e.who) + (e.op == MODE ? e.mode ? " to training" : " to evaluation" : "") + " with " + ref::str(e.a); }
static void same(const std::vector<Ev>& got, const std::vector<Ev>& want, size_t n, const std::string& w) { for (size_t i = 0; i < std::min(n, got.size()); ++i) MC_CHECK(i < want.size() && got[i] == want[i], w << ": event " << i << " is " << show(got[i]) << ", expected " << (i < want.size() ? show(want[i]) : "nothing")); MC_CHECK(got.size() == n, w << ": " << got.size() << " events, expected " << n << (got.size() > n ? "; the first too many is " + show(got[n]) : "")); }
static Tensor<float> in(int i) { return mk<float>(RT({1, 2}, {i + 0.5, -i * 0.25})); }
static Tensor<float> tgt(int i) { return mk<float>(RT({1, 1}, {i * 0.75 - 1})); }
static size_t lines(const std::string& s) { size_t n = 0; std::istringstream i(s); std::string l; while (std::getline(i, l)) n += !l.empty(); return n; }
enum { TRAIN, PREDICT, PREDICTS, BACKWARD, UPDATE, TOTRAIN, TOEVAL, NOPS }; static const char* ON[] = {"train", "predict", "predict a list", "backward", "updateWeights", "trainingMode", "evalMode"};
struct Setup { int depth, samples, epochs; bool eval; };
static void perform(SmartDNN<float>& m, int op, const Setup& s, std::string* text = nullptr) {
    std::vector<Tensor<float>> x, t; for (int i = 0; i < s.samples; ++i) x.push_back(in(i)), t.push_back(tgt(i)); Quiet q;
    struct Keep { Quiet& q; std::string* t; ~Keep() { if (t) *t = q.text(); } } keep{q, text};
    switch (op) { case TRAIN: m.train(x, t, s.epochs); break; case PREDICT: m.predict(x[0]); break; case PREDICTS: m.predict(x); break; case BACKWARD: m.backward(in(3)); break; case UPDATE: m.updateWeights(); break; case TOTRAIN: m.trainingMode(); break; default: m.evalMode(); }
}
static void build(SmartDNN<float>& m, const Setup& s) { for (int k = 0; k < s.depth; ++k) m.addLayer(Rec(k)); m.compile(RecLoss(50), RecOpt(60)); if (s.eval) m.evalMode(); }
static std::vector<Ev> clean(SmartDNN<float>& m, int op, const Setup& s) { failAt = -1; events.clear(); perform(m, op, s); return events; }
static void inModels() {
    for (int depth = 1; depth <= 3; ++depth) for (int samples = 1; samples <= 3; ++samples) for (int epochs = 1; epochs <= 3; ++epochs) for (int eval = 0; eval < 2; ++eval) for (int op = 0; op < NOPS; ++op) {
        if (op != TRAIN && epochs > 1) continue; if (op != TRAIN && op != PREDICTS && samples > 1) continue;
        Setup s{depth, samples, epochs, eval != 0};
        mc::run([&] { return std::string(ON[op]) + ": " + std::to_string(depth) + " layers, " + std::to_string(samples) + " samples, " + std::to_string(epochs) + " epochs" + (eval ? ", evaluation mode" : ""); }, [&] {
            std::vector<Ev> want[NOPS]; { SmartDNN<float> m; build(m, s); for (int o : {TRAIN, PREDICT, PREDICTS, BACKWARD, UPDATE, TRAIN}) want[o] = clean(m, o, s); want[TOTRAIN] = clean(m, TOTRAIN, s); want[TOEVAL] = clean(m, TOEVAL, s); }
            long n = (long)want[op].size(); MC_CHECK(n > 0, "nothing happens");
            for (long k = 0; k < n; ++k) for (int kind = 0; kind < KINDS; ++kind) for (int again = 0; again < 2; ++again) { MC_TRAIL("event " << k << " of " << n << " fails with " << KN[kind]);
                { SmartDNN<float> m; failAt = -1; build(m, s); if (again) perform(m, op == TRAIN ? PREDICT : TRAIN, s);
                  events.clear(); failAt = k; failKind = kind; std::string text, w = std::string("when event ") + std::to_string(k) + " (" + show(want[op][k]) + ") fails";
                  bool out = faultComesOut([&] { perform(m, op, s, &text); }); failAt = -1; mc::rejectedOp();
                  MC_CHECK(out, w << ", " << ON[op] << " reports no failure"); same(events, want[op], (size_t)k + 1, w);
                  if (op == TRAIN) { size_t done = (size_t)(k / (n / epochs)); MC_CHECK(lines(text) == done, w << ", " << lines(text) << " epochs are reported, " << done << " were finished: " << text); }
                  // the model goes on as before (after a failed switch of modes, once the switch is repeated)
                  if (op == TOTRAIN || op == TOEVAL) { auto e = clean(m, op, s); same(e, want[op], want[op].size(), "repeated switch " + w); e = clean(m, s.eval ? TOEVAL : TOTRAIN, s); }
                  for (int o : {op, (int)PREDICT, (int)TRAIN, (int)BACKWARD, (int)UPDATE, (int)PREDICTS}) { if (o == TOTRAIN || o == TOEVAL) continue; auto e = clean(m, o, s); same(e, want[o], want[o].size(), std::string("later ") + ON[o] + " " + w); }
                  mc::state(mc::mix((uint64_t)(k * KINDS + kind) * 2 + again, (uint64_t)(((op * 4 + depth) * 4 + samples) * 4 + epochs) * 2 + eval)); mc::trace(); mc::step();
                }
                MC_CHECK(alive == 0, alive << " components of a destroyed model are still alive");
            }
        });
    }
    // components that fail while they are copied or moved into the model
    for (int depth = 0; depth <= 2; ++depth) for (int what = 0; what < 3; ++what) for (int named = 0; named < 2; ++named) mc::run([&] { return std::string(what == 0 ? "addLayer" : what == 1 ? "compile, loss" : "compile, optimizer") + " of a component that cannot be " + (named ? "copied" : "moved") + ", after " + std::to_string(depth) + " layers"; }, [&] {
        for (int kind = 0; kind < KINDS; ++kind) for (long k = 0; k < 4; ++k) {
            { SmartDNN<float> m; Setup s{depth, 2, 1, false}; failAt = -1; build(m, s); std::vector<Ev> want = clean(m, TRAIN, s);
              events.clear(); failAt = k; failKind = kind; copiesCount = true; bool out = true;
              if (what == 0) { Rec r(depth); out = faultComesOut([&] { if (named) m.addLayer(r); else m.addLayer(std::move(r)); }); } else { RecLoss l(50); RecOpt o(60); out = faultComesOut([&] { if (named) m.compile(l, o); else m.compile(std::move(l), std::move(o)); }); }
              copiesCount = false; failAt = -1; long copies = (long)events.size(); MC_CHECK(out == (k < copies), "failing while it is copied is " << (out ? "reported without reason" : "not reported"));
              if (what == 0) { std::vector<Ev> e = clean(m, TRAIN, s); if (out) { same(e, want, want.size(), "training after a layer was not added"); MC_CHECK(mc::throws([&] { m.getLayer((size_t)depth); }), "a layer that was not added is there"); } else { MC_CHECK(m.getLayer((size_t)depth), "missing"); } }
              else { m.compile(RecLoss(50), RecOpt(60)); std::vector<Ev> e = clean(m, TRAIN, s); same(e, want, want.size(), "training after compiling once more"); }
              mc::step(); mc::trace(); mc::state(mc::mix(k * 8 + kind, what * 10 + depth)); }
            MC_CHECK(alive == 0, alive << " components are still alive");
        }
    });
}
// ---- the library's layers with an optimizer of the user's that fails ----
struct FailOpt : Optimizer<float> { int at, n = 0, kind; FailOpt(int a) : at(a) {} void optimize(const std::vector<std::reference_wrapper<Tensor<float>>>&, const std::vector<std::reference_wrapper<Tensor<float>>>&, float) override { if (n++ == at) { events.clear(); failAt = 0; event(OPT, 0, false, RT(), RT()); } } };
static void inLayers() {
    std::vector<std::pair<LS, std::vector<Dims>>> ls = {{fc(3, 2), {{2, 3}, {3}}}, {conv(1, 2, 2, 2), {{1, 1, 2, 3}, {2, 1, 3, 3}}}, {bn(2), {{3, 2}, {2, 2, 2, 1}}}};
    for (auto& l : ls) for (int at = 0; at < 3; ++at) for (int hist = 0; hist < 3; ++hist) for (int kind = 0; kind < KINDS; ++kind) mc::run([&] { return str(l.first) + ": call " + std::to_string(at) + " of the optimizer fails with " + KN[kind] + " after " + std::to_string(hist) + " updates"; }, [&] {
        auto make = [&] { RandomEngine::setSeed(6); auto r = real<float>(l.first); return r; }; auto a = make(), b = make(); SGDOptimizer<float> oa(SGDOptions<float>{}), ob(SGDOptions<float>{}); int o = 0;
        auto pass = [&](Layer<float>& q, int k) { Tensor<float> x = mk<float>(rounded<float>(pat(l.second[k % 2], 4, k))), y = q.forward(x), u = mk<float>(rounded<float>(pat(rd(y).d, 4, k + 3))); RT d = rd(q.backward(u)); d.v.insert(d.v.end(), 1, 0); RT yy = rd(y); d.v.insert(d.v.end(), yy.v.begin(), yy.v.end()); return d.v; };
        for (int h = 0; h < hist; ++h) { pass(*a, o); pass(*b, o); ++o; a->updateWeights(oa); b->updateWeights(ob); }
        MC_CHECK(pass(*a, o) == pass(*b, o), "passes differ"); ++o;
        failKind = kind; FailOpt f(at); bool out = faultComesOut([&] { a->updateWeights(f); }); failAt = -1; MC_CHECK(out == (f.n > at), "the optimizer's failure is " << (out ? "invented" : "swallowed")); mc::rejectedOp();
        for (int k = 0; k < 4; ++k, ++o) { MC_CHECK(pass(*a, o) == pass(*b, o), "after the failed update, pass " << k << " differs from that of a layer without it"); a->updateWeights(oa); b->updateWeights(ob); mc::step(); }
        mc::trace(); mc::state(mc::mix(at * 10 + hist, kind));
    });
}
// ---- an activation of the user's in an activation layer ----
struct RecAct : Activation<float> { Life life; int id; RecAct(int i) : id(i) {} Tensor<float> forward(const Tensor<float>& x) const override { event(FWD, id, false, rd(x), RT()); return x * 2.0f; } Tensor<float> backward(const Tensor<float>& x, const Tensor<float>& u) const override { event(BWD, id, false, rd(x), rd(u)); return u * x; } };
static void inActivations() {
    for (int len = 1; len <= (mc::thorough() ? 8 : 6); ++len) words(len, 2, [&](const std::vector<int>& w) { mc::run([&] { return "activation layer, calls " + vstr(w); }, [&] {
        for (int kind = 0; kind < KINDS; ++kind) for (size_t f = 0; f <= w.size(); ++f) {
            { ActivationLayer<float> l{RecAct(3)}; RT last; bool have = false, sure = true; failKind = kind;
              for (size_t i = 0; i < w.size(); ++i) { events.clear(); failAt = i == f ? 0 : -1; MC_TRAIL((w[i] ? "backward" : "forward") << (i == f ? " fails" : ""));
                RT x = rd(in((int)i)); bool out = false;
                if (!w[i]) { RT y; out = faultComesOut([&] { y = rd(l.forward(mk<float>(x))); }); MC_CHECK(events.size() == 1 && events[0].op == FWD && events[0].a == x, "the activation is not asked to transform the input, once"); if (!out) { MC_CHECK(y == map(x, [](double v) { return 2 * v; }), "output " << ref::str(y)); last = x; have = sure = true; } else sure = false; MC_CHECK(out == (i == f), "failure of the activation"); }
                else if (!have && sure) { failAt = -1; MC_CHECK(mc::throws([&] { l.backward(mk<float>(x)); }), "backward before forward is answered"); MC_CHECK(events.empty(), "the activation is asked without any input"); }
                else if (sure) { RT d; out = faultComesOut([&] { d = rd(l.backward(mk<float>(x))); }); MC_CHECK(events.size() == 1 && events[0].op == BWD && events[0].a == last && events[0].b == x, "the activation is not given the latest input and the upstream gradient, once"); MC_CHECK(out == (i == f), "failure of the activation"); if (!out) { RT e = x; for (size_t q = 0; q < e.size(); ++q) e.v[q] *= last.v[q]; MC_CHECK(d == rounded<float>(e), "gradient " << ref::str(d)); } }
                failAt = -1; mc::step(); mc::state(mc::mix(i * 64 + f, w[i] * 8 + kind)); }
            }
            MC_CHECK(alive == 0, alive << " activations are still alive"); mc::trace();
        }
    }); });
}
void explore() {
    mc::bound("faults", "models of 1 to 3 stand-in layers, 1 to 3 samples and epochs, both modes: each of the events of each operation (train, predict, predict a list, backward, updateWeights, mode switches, adding and compiling) fails with each of 6 kinds of exceptions, as first operation and after others; then all operations again");
    inModels(); inLayers(); inActivations();
}

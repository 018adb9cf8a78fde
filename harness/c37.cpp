// C37: layers, optimizers, losses and activations are values: copies are equal and independent, moves hand everything over,
// and a model holds its own copy of what it is given.
#include "nets.hpp"
using namespace nets;
typedef float T;
// An object's expected behaviour is what its history gives on an object that was never copied, moved or assigned.
// ---- layers ----
struct Item { int op, arg; unsigned seed; }; // 0 forward of input arg, 1 backward, 2 update, 3 mode
struct Box { virtual ~Box() {} virtual Layer<T>& l() = 0; virtual std::unique_ptr<Box> copy() = 0; virtual std::unique_ptr<Box> moved() = 0; virtual bool assign(Box&) = 0; virtual bool moveAssign(Box&) = 0; virtual bool swap(Box&) = 0; virtual bool addTo(SmartDNN<T>&, int times) = 0; virtual void giveTo(SmartDNN<T>&) = 0; };
template <class L> struct BoxOf : Box {
    L v; template <class X> BoxOf(int, X&& x) : v(std::forward<X>(x)) {}
    Layer<T>& l() override { return v; }
    std::unique_ptr<Box> copy() override { if constexpr (std::is_copy_constructible_v<L>) return std::make_unique<BoxOf<L>>(0, (const L&)v); else return nullptr; }
    std::unique_ptr<Box> moved() override { if constexpr (std::is_move_constructible_v<L>) return std::make_unique<BoxOf<L>>(0, std::move(v)); else return nullptr; }
    bool assign(Box& o) override { if constexpr (std::is_copy_assignable_v<L>) { v = (const L&)dynamic_cast<BoxOf<L>&>(o).v; return true; } else return false; }
    bool moveAssign(Box& o) override { if constexpr (std::is_move_assignable_v<L>) { v = std::move(dynamic_cast<BoxOf<L>&>(o).v); return true; } else return false; }
    bool swap(Box& o) override { if constexpr (std::is_swappable_v<L>) { std::swap(v, dynamic_cast<BoxOf<L>&>(o).v); return true; } else return false; }
    bool addTo(SmartDNN<T>& m, int times) override { if constexpr (std::is_copy_constructible_v<L>) { for (int i = 0; i < times; ++i) { if (i % 2) m.addLayer((const L&)v); else m.addLayer(v); } return true; } else return false; }
    void giveTo(SmartDNN<T>& m) override { m.addLayer(std::move(v)); }
};
struct Cfg { LS l; std::vector<Dims> in; };
static std::unique_ptr<Box> fresh(const Cfg& c, unsigned seed) { RandomEngine::setSeed(seed); std::unique_ptr<Box> r; withLayer<T>(c.l, [&](auto&& x) { typedef std::decay_t<decltype(x)> L; if constexpr (std::is_move_constructible_v<L>) r.reset(new BoxOf<L>(0, std::move(x))); }); return r; }
static RT input(const Cfg& c, int i) { return rounded<T>(map(pat(c.in[i % c.in.size()], 4, i * 7 + 2), [](double x) { return 0.7 * x + 0.05; })); }
struct Out { bool threw = false; RT r; std::vector<RT> p; bool operator==(const Out& o) const { if (threw != o.threw || p.size() != o.p.size() || !(r.d == o.r.d)) return false; auto same = [](const RT& a, const RT& b) { return a.d == b.d && a.size() == b.size() && (a.size() == 0 || !memcmp(a.v.data(), b.v.data(), a.size() * sizeof(double))); }; if (!same(r, o.r)) return false; for (size_t i = 0; i < p.size(); ++i) if (!same(p[i], o.p[i])) return false; return true; } };
static std::string show(const Out& o) { if (o.threw) return "an exception"; std::string s = str(o.r); for (auto& x : o.p) s += " " + str(x); return s; }
struct Obj { // a layer, its history, and the layer its history gives
    const Cfg* c = nullptr; std::unique_ptr<Box> b, twin; std::vector<Item> h; unsigned made = 0; bool mode = true; Dims out, tout;
    Out run(Box& x, const Item& i, Dims& o) {
        Out r; Layer<T>& l = x.l();
        try { switch (i.op) {
            case 0: { RandomEngine::setSeed(i.seed); Tensor<T> t = mk<T>(input(*c, i.arg)), y = l.forward(t); r.r = rd(y); o = r.r.d; break; }
            case 1: { Tensor<T> u = mk<T>(rounded<T>(pat(o.empty() ? Dims{1, 1} : o, 4, i.arg))); r.r = rd(l.backward(u)); break; }
            case 2: { Probe<T> p; int n = 0; p.act = [&](Tensor<T>& w, const Tensor<T>& g) { ++n; for (size_t k = 0; k < w.getShape().size(); ++k) { T& q = w.getData().data()[k]; const Tensor<T>& cg = g; q = q * T(0.75) - T(0.125) * cg.getData().data()[k] + T(0.0625) * T(i.arg); } }; l.updateWeights(p); for (auto& e : p.got) r.p.push_back(e.weight), r.p.push_back(e.grad); break; }
            default: l.setTrainingMode(i.arg != 0); } } catch (const std::exception&) { r.threw = true; }
        return r;
    }
    void make(const Cfg& q, unsigned seed) { c = &q; made = seed; h.clear(); mode = true; out.clear(); tout.clear(); b = fresh(q, seed); replay(); }
    void replay() { twin = fresh(*c, made); tout.clear(); for (auto& i : h) run(*twin, i, tout); }
    void step(Item i, const std::string& what) { h.push_back(i); Out a = run(*b, i, out), e = run(*twin, i, tout); MC_CHECK(a == e, str(c->l) << ": " << what << " gives " << show(a) << "; the same history without copies gives " << show(e)); mc::state(mc::mix(ref::hash(a.r), h.size())); mc::step(); }
    void takeOver(const Obj& o) { c = o.c; h = o.h; made = o.made; mode = o.mode; out = o.out; replay(); }
};
struct Play {
    Obj o[2]; const Cfg *c, *alt; unsigned n = 1; static const int OPS = 15;
    Play(const Cfg& a, const Cfg& b) : c(&a), alt(&b) { o[0].make(a, 11); o[1].make(a, 12); }
    void act(int who, int k) { if (!o[who].b) return; Obj& x = o[who]; std::string nm = who ? " of B" : " of A"; MC_TRAIL((k == 0 ? "forward" : k == 1 ? "backward" : k == 2 ? "update" : "mode switch") << nm); switch (k) { case 0: x.step({0, (int)++n + who, n * 7u}, "forward" + nm); break; case 1: x.step({1, (int)++n, 0}, "backward" + nm); break; case 2: x.step({2, (int)(++n % 5), 0}, "update" + nm); break; default: x.mode = !x.mode; x.step({3, x.mode, 0}, "mode switch" + nm); } }
    void op(int k) {
        static const char* nm[] = {"", "", "", "", "B = A", "B copied from A", "B = move(A)", "B made by move(A)", "swap(A, B)", "A = A", "A = new one with other options", "", "", "", "A copied from B, B destroyed"};
        Obj &A = o[0], &B = o[1];
        if (k < 4) return act(0, k);
        if (k >= 11 && k <= 13) return act(1, k - 11);
        MC_TRAIL(nm[k]);
        switch (k) {
            case 4: if (A.b && B.b && B.b->assign(*A.b)) B.takeOver(A); break;
            case 5: if (A.b) if (auto q = A.b->copy()) { B.b = std::move(q); B.takeOver(A); } break;
            case 6: if (A.b && B.b && B.b->moveAssign(*A.b)) { B.takeOver(A); A.make(*c, 20 + n); } break;
            case 7: if (A.b) if (auto q = A.b->moved()) { B.b = std::move(q); B.takeOver(A); auto f = fresh(*c, 30 + n); if (A.b->moveAssign(*f)) { Obj t; t.make(*c, 30 + n); A.takeOver(t); } else A.make(*c, 30 + n); } break; // a moved-from layer can be assigned
            case 8: if (A.b && B.b && A.b->swap(*B.b)) { Obj t; t.takeOver(A); A.takeOver(B); B.takeOver(t); } break;
            case 9: if (A.b) { Box& same = *A.b; A.b->assign(same); } break;
            case 10: if (A.b) { Obj t; t.make(*alt, 40 + n); if (A.b->assign(*t.b) || A.b->moveAssign(*t.b)) A.takeOver(t); } break;
            case 14: if (B.b) if (auto q = B.b->copy()) { A.b = std::move(q); A.takeOver(B); B.make(*c, 50 + n); } break;
        }
        mc::step();
    }
    void audit() { for (int who = 0; who < 2; ++who) { act(who, 1); act(who, 2); act(who, 0); act(who, 1); act(who, 2); act(who, 0); } }
};
// ---- optimizers ----
struct OBox { virtual ~OBox() {} virtual Optimizer<T>& p() = 0; virtual std::unique_ptr<OBox> copy() = 0; virtual std::unique_ptr<OBox> moved() = 0; virtual bool assign(OBox&) = 0; virtual bool moveAssign(OBox&) = 0; virtual bool swap(OBox&) = 0; virtual bool compileInto(SmartDNN<T>&, int loss) = 0; virtual void giveTo(SmartDNN<T>&, int loss) = 0; };
template <class P> struct OBoxOf : OBox {
    P v; template <class X> OBoxOf(int, X&& x) : v(std::forward<X>(x)) {}
    Optimizer<T>& p() override { return v; }
    std::unique_ptr<OBox> copy() override { if constexpr (std::is_copy_constructible_v<P>) return std::make_unique<OBoxOf<P>>(0, (const P&)v); else return nullptr; }
    std::unique_ptr<OBox> moved() override { return std::make_unique<OBoxOf<P>>(0, std::move(v)); }
    bool assign(OBox& o) override { if constexpr (std::is_copy_assignable_v<P>) { v = (const P&)dynamic_cast<OBoxOf<P>&>(o).v; return true; } else return false; }
    bool moveAssign(OBox& o) override { if constexpr (std::is_move_assignable_v<P>) { v = std::move(dynamic_cast<OBoxOf<P>&>(o).v); return true; } else return false; }
    bool swap(OBox& o) override { if constexpr (std::is_swappable_v<P>) { std::swap(v, dynamic_cast<OBoxOf<P>&>(o).v); return true; } else return false; }
    bool compileInto(SmartDNN<T>& m, int loss) override { if constexpr (std::is_copy_constructible_v<P>) { if (loss == 0) { MSELoss<T> l; m.compile(l, v); } else { CategoricalCrossEntropyLoss<T> l; m.compile((const CategoricalCrossEntropyLoss<T>&)l, (const P&)v); } return true; } else return false; }
    void giveTo(SmartDNN<T>& m, int loss) override { if (loss == 0) m.compile(MSELoss<T>(), std::move(v)); else m.compile(CategoricalCrossEntropyLoss<T>(), std::move(v)); }
};
static std::unique_ptr<OBox> freshOpt(const opts::Opt& o) { auto p = opts::make<T>(o); typedef std::unique_ptr<OBox> R; if (o.kind == opts::SGD) return R(new OBoxOf<SGDOptimizer<T>>(0, std::move(dynamic_cast<SGDOptimizer<T>&>(*p)))); if (o.kind == opts::RMS) return R(new OBoxOf<RMSPropOptimizer<T>>(0, std::move(dynamic_cast<RMSPropOptimizer<T>&>(*p)))); return R(new OBoxOf<AdamOptimizer<T>>(0, std::move(dynamic_cast<AdamOptimizer<T>&>(*p)))); }
struct OItem { int which; std::vector<T> before; int g; double lr; };
typedef std::vector<Tensor<T>> Ws;
static const std::vector<Dims> WD = {{3}, {2, 2}};
static Tensor<T> grad(int which, int g) { return mk<T>(rounded<T>(pat(WD[which], 4, g * 3 + which))); }
struct OObj {
    opts::Opt c; std::unique_ptr<OBox> b, twin; std::unique_ptr<Ws> tw; std::vector<OItem> h;
    void make(const opts::Opt& o) { c = o; b = freshOpt(o); h.clear(); replay(); }
    static std::vector<T> values(const Tensor<T>& t) { return std::vector<T>(t.getData().data(), t.getData().data() + t.getShape().size()); }
    void onTwin(const OItem& i) { Tensor<T>& w = (*tw)[i.which]; std::copy(i.before.begin(), i.before.end(), w.getData().data()); Tensor<T> g = grad(i.which, i.g); twin->p().optimize({std::ref(w)}, {std::ref(g)}, T(i.lr)); }
    void replay() { twin = freshOpt(c); tw.reset(new Ws); for (auto& d : WD) tw->push_back(Tensor<T>(Shape(d), T(0))); for (auto& i : h) onTwin(i); }
    void step(Ws& w, int which, int g, double lr, const char* nm) {
        const Tensor<T>& cw = w[which]; h.push_back({which, values(cw), g, lr}); Tensor<T> gr = grad(which, g); b->p().optimize({std::ref(w[which])}, {std::ref(gr)}, T(lr)); onTwin(h.back());
        const Tensor<T>& ct = (*tw)[which]; MC_CHECK(values(cw) == values(ct), opts::str(c) << ": an update of tensor " << which << " by " << nm << " gives " << ref::str(rd(cw)) << "; the same history without copies gives " << ref::str(rd(ct))); mc::step(); mc::state(mc::mix(ref::hash(rd(cw)), h.size()));
    }
    void takeOver(const OObj& o) { c = o.c; h = o.h; replay(); }
};
struct OPlay {
    OObj o[2]; Ws w; opts::Opt c, alt; int n = 0; static const int OPS = 13;
    OPlay(const opts::Opt& a, const opts::Opt& b) : c(a), alt(b) { o[0].make(a); o[1].make(a); w.reserve(2); for (size_t i = 0; i < 2; ++i) w.push_back(mk<T>(rounded<T>(pat(WD[i], 4, i + 1)))); }
    void op(int k) {
        OObj &P = o[0], &Q = o[1]; MC_TRAIL("operation " << k);
        switch (k) {
            case 0: P.step(w, 0, ++n, -1, "P"); break; case 1: P.step(w, 1, ++n, -1, "P"); break; case 2: P.step(w, 0, ++n, 0.25, "P"); break;
            case 3: Q.step(w, 0, ++n, -1, "Q"); break; case 4: Q.step(w, 1, ++n, -1, "Q"); break;
            case 5: if (Q.b->assign(*P.b)) Q.takeOver(P); break;
            case 6: if (auto q = P.b->copy()) { Q.b = std::move(q); Q.takeOver(P); } break;
            case 7: if (Q.b->moveAssign(*P.b)) { Q.takeOver(P); auto f = freshOpt(c); P.b->moveAssign(*f); OObj t; t.make(c); P.takeOver(t); } break;
            case 8: { auto q = P.b->moved(); Q.b = std::move(q); Q.takeOver(P); P.make(c); break; }
            case 9: if (P.b->swap(*Q.b)) { OObj t; t.takeOver(P); P.takeOver(Q); Q.takeOver(t); } break;
            case 10: { OBox& same = *P.b; P.b->assign(same); break; }
            case 11: { auto f = freshOpt(alt); if (P.b->assign(*f)) { OObj t; t.make(alt); P.takeOver(t); } break; }
            case 12: if (auto q = Q.b->copy()) { P.b = std::move(q); P.takeOver(Q); Q.make(c); } break;
        }
    }
    void audit() { for (int i = 0; i < 2; ++i) for (int k : {0, 1, 3, 4}) op(k); }
};
// ---- models ----
static std::string trained(SmartDNN<T>& m, const std::vector<Tensor<T>>& x, const std::vector<Tensor<T>>& t, int layers) {
    std::ostringstream o; auto put = [&](const RT& r) { o << str(r.d); for (double v : r.v) { uint64_t b; memcpy(&b, &v, 8); o << b << ","; } };
    for (int k = 0; k < 2; ++k) { { Quiet q; RandomEngine::setSeed(77); m.train(x, t, 2); } for (int l = 0; l < layers; ++l) { Probe<T> p; m.getLayer(l)->updateWeights(p); for (auto& e : p.got) put(e.weight), put(e.grad); } m.evalMode(); put(rd(m.predict(x[0]))); m.trainingMode(); }
    return o.str();
}
static void abuse(Obj& a) { unsigned n = 90; for (int k : {3, 0, 1, 2, 0}) { Item i = k == 3 ? Item{3, 0, 0} : Item{k, (int)n, n}; ++n; Dims o = a.out; Out r = a.run(*a.b, i, o); (void)r; a.out = o; } }
static void models(const std::vector<std::pair<Cfg, Cfg>>& cs) {
    auto os = optimizers();
    for (auto& cc : cs) for (int hist = 0; hist < 6; ++hist) for (int times = 1; times <= 2; ++times) mc::run([&] { return "a model given " + str(cc.first.l) + (times == 2 ? " twice" : "") + " after history " + std::to_string(hist); }, [&] {
        const Cfg& c = cc.first; static const std::vector<std::vector<int>> H = {{}, {0}, {0, 1}, {0, 1, 2}, {3, 0}, {0, 1, 2, 3, 3, 0, 1}};
        auto prep = [&](Obj& a) { a.make(c, 11); unsigned n = 1; bool mode = true; for (int k : H[hist]) { if (k == 3) mode = !mode; a.h.push_back(k == 3 ? Item{3, mode, 0} : Item{k, (int)n, n * 7u}); ++n; a.run(*a.b, a.h.back(), a.out); } a.replay(); };
        Obj a; prep(a); SmartDNN<T> m, t; if (!a.b->addTo(m, times)) return; // moved-only kinds have no lvalue form
        for (int i = 0; i < times; ++i) { Obj f; prep(f); f.b->giveTo(t); }
        RT x0 = input(c, 3); std::vector<Tensor<T>> x = {mk<T>(x0), mk<T>(input(c, 3 + (int)c.in.size()))};
        bool fits = true; try { RT y = x0; Obj f; f.make(c, 1); for (int i = 0; i < times; ++i) { RandomEngine::setSeed(1); Tensor<T> q = f.b->l().forward(mk<T>(y)); y = rd(q); } } catch (const std::exception&) { fits = false; }
        if (!fits) return;
        // the layer the caller keeps and the model's do not know each other
        Dims keep = a.out; abuse(a); a.out = keep; compile(m, 0, os[1]); compile(t, 0, os[1]); std::vector<Tensor<T>> y; { RT r = x0; for (auto& q : x) { SmartDNN<T> s; for (int i = 0; i < times; ++i) { Obj f; prep(f); f.b->giveTo(s); } RandomEngine::setSeed(3); y.push_back(s.predict(q) * 0.5f); } }
        { Obj b; prep(b); a.b = std::move(b.b); } // the original is gone
        std::string got = trained(m, x, y, times), want = trained(t, x, y, times); MC_CHECK(got == want, "a model given a layer by name behaves differently from one that was handed the layer"); mc::state(std::hash<std::string>()(got)); mc::step();
        if (times == 1) { Obj k; prep(k); SmartDNN<T> s; k.b->addTo(s, 1); compile(s, 0, os[0]); trained(s, x, y, 1); s.evalMode(); k.step({1, 5, 0}, "backward of the caller's layer after training of the model"); k.step({2, 1, 0}, "update of it"); k.step({0, 4, 9}, "forward of it"); k.step({1, 6, 0}, "backward of it"); k.step({2, 1, 0}, "update of it"); }
        mc::trace();
    });
    for (auto& o : os) for (int lossKind = 0; lossKind < 2; ++lossKind) for (int hist = 0; hist < 4; ++hist) mc::run([&] { return "models compiled with " + opts::str(o) + " after history " + std::to_string(hist) + (lossKind ? ", cross-entropy" : ""); }, [&] {
        OPlay k(o, o); for (int i = 0; i < hist; ++i) k.op(i % 3); Cfg c{fc(2, 2), {{2, 2}}}; std::vector<Tensor<T>> x = {mk<T>(input(c, 3)), mk<T>(input(c, 4))}, y = {Tensor<T>({2, 2}, 0.5f), Tensor<T>({2, 2}, 0.25f)};
        auto build = [&](SmartDNN<T>& m) { RandomEngine::setSeed(8); m.addLayer(FullyConnectedLayer<T>(2, 2)); m.addLayer(ActivationLayer<T>(Softmax<T>())); };
        SmartDNN<T> a, b, t, u; build(a); build(b); build(t); build(u); if (!k.o[0].b->compileInto(a, lossKind)) return;
        k.o[0].b->compileInto(b, lossKind); { auto f = freshOpt(o); f->giveTo(t, lossKind); } { auto f = freshOpt(o); f->giveTo(u, lossKind); }
        std::string w = trained(t, x, y, 2); std::string ga = trained(a, x, y, 2); k.audit(); // the caller's optimizer goes on as if nothing had happened
        k.o[0].make(o); k.o[1].make(o); std::string gb = trained(b, x, y, 2); MC_CHECK(ga == w && gb == w, "a model compiled with a caller's optimizer learns differently from one with an optimizer of its own");
        // going on, and with another optimizer halfway
        trained(u, x, y, 2); MC_CHECK(trained(a, x, y, 2) == trained(u, x, y, 2), "later training differs"); mc::step(); mc::trace(); mc::state(std::hash<std::string>()(w));
    });
}
// ---- activations and losses: copies compute the same, whatever happens to the original ----
template <class A> static void functionValue(const std::string& nm, const A& made, const std::function<RT(A&, const RT&)>& f) {
    mc::run([&] { return "copies of " + nm; }, [&] {
        RT x = rounded<T>(map(pat({2, 3}, 4, 1), [](double v) { return v * 0.5; })); A a(made); RT want = f(a, x);
        auto same = [&](A& q, const char* w) { RT g = f(q, x); MC_CHECK(g.d == want.d && !memcmp(g.v.data(), want.v.data(), g.size() * 8), w << " of " << nm << " computes " << ref::str(g) << " instead of " << ref::str(want)); mc::step(); mc::state(ref::hash(g)); };
        auto p = std::make_unique<A>(a); A b(*p); p.reset(); same(b, "a copy"); A c(std::move(b)); same(c, "a moved copy"); if constexpr (std::is_copy_assignable_v<A>) { b = c; same(b, "an assigned copy"); A& r = b; b = r; same(b, "a self-assigned object"); } same(a, "the original"); mc::trace();
    });
}
void explore() {
    bool full = mc::thorough(); int depth = full ? 4 : 3;
    std::vector<std::pair<Cfg, Cfg>> cs = {{{fc(3, 2), {{2, 3}, {3}}}, {fc(2, 4), {{2, 2}}}}, {{conv(1, 2, 2, 2), {{1, 1, 2, 2}, {2, 1, 2, 3}}}, {conv(2, 1, 1, 2, 1, 1), {{1, 2, 2, 1}}}}, {{pool(2, 1), {{1, 1, 2, 3}, {2, 1, 3, 2}}}, {pool(1, 2, 0), {{1, 2, 3, 2}}}}, {{bn(2), {{3, 2}, {1, 2, 2, 1}}}, {bn(3), {{2, 3}}}}, {{flat(), {{1, 2, 2}, {2, 1, 1, 3}}}, {flat(), {{2, 2}}}}, {{drop(0.5), {{2, 3}, {4}}}, {drop(0.25), {{3, 2}}}}};
    for (int a : {(int)acts::LEAKY3, (int)acts::SIGMOID, (int)acts::MISH, (int)acts::NKINDS}) cs.push_back({{act(a), {{2, 2}, {1, 3}}}, {act(acts::LEAKY), {{2, 3}}}});
    mc::bound("layers", "for " + std::to_string(cs.size()) + " layers of all kinds, all words of length " + std::to_string(depth) + ", from new objects and after a pass and update of one of them, over 15 operations on two objects (forward, backward, update, mode switch, copies, assignments, moves, swap, self-assignment, other options, destruction), then both objects examined");
    for (auto& c : cs) for (int pre = 0; pre < 2; ++pre) words(depth, Play::OPS, [&](const std::vector<int>& w) { bool any = false; for (size_t i = 0; i < w.size(); ++i) any |= (w[i] >= 4 && w[i] <= 10) || w[i] == 14; if (!any) return; mc::run([&] { return str(c.first.l) + (pre ? " used," : "") + " word " + vstr(w); }, [&] { Play p(c.first, c.second); if (pre) for (int k : {0, 1, 2}) p.op(k); for (int k : w) p.op(k); p.audit(); mc::trace(); }); });
    auto os = optimizers(); mc::bound("optimizers", "for " + std::to_string(os.size()) + " optimizers, all words of length " + std::to_string(depth) + ", from new optimizers and after three updates by one of them, over 13 operations on two optimizers that serve the same two tensors");
    for (size_t i = 0; i < os.size(); ++i) { opts::Opt alt = os[i]; alt.lr *= 3; alt.momentum = alt.momentum > 0 ? 0 : alt.kind == opts::ADAM ? 0 : 0.5; alt.b1 = 0.5; if (alt.kind == opts::SGD && alt.momentum == 0) alt.nesterov = false; for (int pre = 0; pre < 2; ++pre) words(depth, OPlay::OPS, [&](const std::vector<int>& w) { bool any = false; for (int k : w) any |= k >= 5; if (!any) return; mc::run([&] { return opts::str(os[i]) + (pre ? " used," : "") + " word " + vstr(w); }, [&] { OPlay p(os[i], alt); if (pre) for (int k : {0, 1, 0}) p.op(k); for (int k : w) p.op(k); p.audit(); mc::trace(); }); }); }
    models(cs);
    auto fb = [](auto& a, const RT& x) { Tensor<T> t = mk<T>(x); RT r = rd(a.forward(t)), d = rd(a.backward(t, mk<T>(map(x, [](double v) { return float(v + 1); })))); r.d[0] *= 2; r.v.insert(r.v.end(), d.v.begin(), d.v.end()); return r; };
    functionValue<ReLU<T>>("ReLU", ReLU<T>(), fb); functionValue<LeakyReLU<T>>("LeakyReLU", LeakyReLU<T>(0.3f), fb); functionValue<Sigmoid<T>>("Sigmoid", Sigmoid<T>(), fb); functionValue<Tanh<T>>("Tanh", Tanh<T>(), fb); functionValue<Swish<T>>("Swish", Swish<T>(), fb); functionValue<Mish<T>>("Mish", Mish<T>(), fb); functionValue<Softmax<T>>("Softmax", Softmax<T>(), fb);
    auto lg = [](auto& l, const RT& x) { Tensor<T> a = mk<T>(rounded<T>(map(x, [](double v) { return std::fabs(v) + 0.1; }))), b(Shape{2, 3}, 0.5f); RT r = rd(l.gradient(a, b)), c = rd(l.compute(a, b)); r.d = {(int)(r.size() + c.size())}; r.v.insert(r.v.end(), c.v.begin(), c.v.end()); return r; };
    functionValue<MSELoss<T>>("MSE", MSELoss<T>(), lg); functionValue<CategoricalCrossEntropyLoss<T>>("cross-entropy", CategoricalCrossEntropyLoss<T>(), lg);
}

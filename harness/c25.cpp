// C25: the gradients of every composition of layers are the derivatives of its loss.
#include "nets.hpp"
using namespace nets;
static long skipped = 0;
static double mseLoss(const RT& y, const RT& t) { double s = 0; for (size_t i = 0; i < y.size(); ++i) s += (y.v[i] - t.v[i]) * (y.v[i] - t.v[i]); return s / (double)y.size(); }
static double clip(double p) { return std::min(std::max(p, 1e-7), 1 - 1e-7); } // (the documented guard against log(0))
static double cceLoss(const RT& y, const RT& t) { double s = 0; for (size_t i = 0; i < y.size(); ++i) s -= t.v[i] * std::log(clip(y.v[i])); return s / y.d[0]; }
static double lossOf(int k, const RT& y, const RT& t) { return k ? cceLoss(y, t) : mseLoss(y, t); }
static RT gradOf(int k, const RT& y, const RT& t) { RT g(y.d); for (size_t i = 0; i < y.size(); ++i) g.v[i] = k ? -t.v[i] / clip(y.v[i]) / y.d[0] : 2 * (y.v[i] - t.v[i]) / (double)y.size(); return g; }
typedef std::vector<std::unique_ptr<RLayer>> Ref;
static RT forward(Ref& r, RT x) { for (auto& l : r) x = l->fwd(x); return x; }
// far enough from the points where the function has no derivative?
static bool smooth(const Net& n, Ref& r) {
    for (size_t k = 0; k < n.size(); ++k) {
        if (n[k].k == ACT && (n[k].a == acts::RELU || n[k].a == acts::LEAKY || n[k].a == acts::LEAKY3)) for (double v : dynamic_cast<RAct<double>*>(r[k].get()) ? dynamic_cast<RAct<double>*>(r[k].get())->x.v : dynamic_cast<RAct<float>*>(r[k].get())->x.v) if (std::fabs(v) < 2e-3 && !(v == 0 && k > 0 && n[k - 1].k == DROP)) return false;
        if (n[k].k == POOL) { auto* p = dynamic_cast<RPool*>(r[k].get()); Dims y = p->ydims(); for (int pl = 0; pl < y[0] * y[1]; ++pl) for (int i = 0; i < y[2]; ++i) for (int j = 0; j < y[3]; ++j) { size_t b = p->best(pl, i, j); bool ok = true; p->window(pl, i, j, [&](size_t q) { if (q != b && p->x.v[b] - p->x.v[q] < 2e-3) ok = false; }); if (!ok) return false; } }
    }
    return true;
}
template <class T> void judge(const RT& got, const RT& want, const std::string& what, double amp) {
    MC_CHECK(got.size() == want.size(), what << " has shape " << ref::str(got.d) << ", expected " << ref::str(want.d));
    double m = 0; for (double v : want.v) m = std::max(m, std::fabs(v)); double tol = (std::is_same<T, float>::value ? 3e-4 : 1e-10) * amp * (0.05 + m);
    for (size_t i = 0; i < want.size(); ++i) MC_CHECK(std::fabs(got.v[i] - want.v[i]) <= tol, what << ": entry " << i << " is " << got.v[i] << ", expected " << want.v[i] << " (+- " << tol << "); got " << ref::str(got) << ", expected " << ref::str(want));
    mc::step();
}
template <class T> void check(const Net& net, const Dims& xd, int lossKind, bool eval, bool numeric) {
    RandomEngine::setSeed(9); SmartDNN<T> m; Ref r; for (auto& l : net) add(m, l);
    for (size_t k = 0; k < net.size(); ++k) { r.push_back(model<T>(net[k], k * 5 + 2)); if (net[k].k == BN) { RT s = pat({3, net[k].a}, 4, k); equip<T>(*m.getLayer(k), net[k], *r[k], s); } else equip<T>(*m.getLayer(k), net[k], *r[k], RT()); }
    if (eval) { m.evalMode(); for (auto& l : r) l->training = false; }
    RT x, y; Tensor<T> tx({1}, T(0)); std::vector<Tensor<T>> outs; std::mt19937 engine; bool ok = false;
    for (int tries = 0; tries < 12 && !ok; ++tries) { // choose data off the kinks
        x = pat(xd, 4, tries * 5 + 1); for (size_t i = 0; i < x.size(); ++i) x.v[i] = x.v[i] * 0.6 + 0.11 * (double)((i * i * 3 + tries * 7) % 13) - 0.613; x = rounded<T>(x); tx = mk<T>(x); outs.clear(); RandomEngine::setSeed(100 + tries); engine = RandomEngine::getInstance();
        Tensor<T> v = tx; y = x; bool zeroAtDrop = false;
        for (size_t k = 0; k < net.size(); ++k) {
            v = m.getLayer(k)->forward(v); outs.push_back(v);
            if (net[k].k == DROP) for (double q : y.v) zeroAtDrop |= std::fabs(q) < 1e-6 && (k == 0 || !(net[k - 1].k == DROP || net[k - 1].k == POOL || net[k - 1].k == FLAT || (net[k - 1].k == ACT && net[k - 1].a == acts::RELU))); // then kept and dropped look alike
            if (net[k].k == DROP && !eval) { auto* d = dynamic_cast<RDrop*>(r[k].get()); RT o = rd(v); d->kept.assign(y.size(), 1); MC_CHECK(o.size() == y.size(), "dropout changes the number of elements"); for (size_t i = 0; i < y.size(); ++i) d->kept[i] = o.v[i] != 0; }
            y = r[k]->fwd(y);
        }
        ok = smooth(net, r) && !zeroAtDrop;
    }
    if (!ok) { ++skipped; return; }
    double amp = 1, fl = 1; for (auto& l : r) if (auto* b = dynamic_cast<RBN*>(l.get())) for (double i : b->inv) { amp *= std::max(1.0, i); fl = std::max(fl, i); }
    for (double v : y.v) if (!std::isfinite(v)) { ++skipped; return; }
    if (amp > (sizeof(T) == 4 ? 12 : 1e5) || (sizeof(T) == 4 && lossKind)) { amp *= 10; if (sizeof(T) == 4) { ++skipped; return; } }
    { RT z = x; for (size_t k = 0; k < net.size(); ++k) { z = r[k]->fwd(z); if (!eval) if (auto* b = dynamic_cast<RBN*>(r[k].get())) (void)b; MC_CHECK(rd(outs[k]).d == z.d, "layer " << k << " yields shape " << ref::str(rd(outs[k]).d) << ", expected " << ref::str(z.d)); judge<T>(rd(outs[k]), z, "output of layer " + std::to_string(k), amp * 10); } }
    RT t = map(pat(y.d, 4, 3), [](double q) { return q * 0.5; }); if (lossKind) for (size_t i = 0; i < t.size(); ++i) t.v[i] = (double)((i * 5) % 7 + 1) / 16; t = rounded<T>(t);
    auto L = loss<T>(lossKind); Tensor<T> tt = mk<T>(t); RT lv = rd(L->compute(outs.empty() ? tx : outs.back(), tt)); double want = lossOf(lossKind, y, t); MC_CHECK(std::fabs(lv.v[0] - want) <= (sizeof(T) == 4 ? 1e-3 : 1e-8) * amp * (1 + std::fabs(want)), "the loss is " << lv.v[0] << ", expected " << want);
    Tensor<T> g0 = L->gradient(outs.empty() ? tx : outs.back(), tt), g = g0; RT rg = gradOf(lossKind, y, t);
    judge<T>(rd(g), rg, "loss gradient", amp * 10); // backward through the reference too
    for (size_t k = net.size(); k-- > 0;) { g = m.getLayer(k)->backward(g); rg = r[k]->bwd(rg); if (k) { MC_CHECK(rd(g).size() == rg.size(), "gradient of layer " << k << " has shape " << ref::str(rd(g).d)); } }
    MC_CHECK(rd(g).d == xd, "the input gradient has shape " << ref::str(rd(g).d) << ", the input " << ref::str(xd)); judge<T>(rd(g), rg, "input gradient", amp * 100); mc::state(hash(rd(g)));
    for (int round = 0; round < 5; ++round) { // once after the layers' own backward, then after the model's: of the same gradient, of zeros, of one that is zero in part, and of the first again
        for (size_t k = 0; k < net.size(); ++k) if (hasParams(net[k])) {
            Probe<T> p; m.getLayer(k)->updateWeights(p); MC_CHECK(p.got.size() == 2, "layer " << k << " hands over " << p.got.size() << " parameters"); bool seen[2] = {false, false};
            for (auto& e : p.got) { int w = e.weight.v == r[k]->p[0].v ? 0 : 1; MC_CHECK(e.weight.v == r[k]->p[w].v && !seen[w], "layer " << k << ": unknown parameter " << ref::str(e.weight)); seen[w] = true; judge<T>(e.grad, r[k]->g[w], "gradient of parameter " + std::to_string(w) + " of layer " + std::to_string(k), amp * 100); mc::state(hash(e.grad)); }
        }
        if (round == 4) break;
        RT u = rd(g0); for (size_t i = 0; i < u.size(); ++i) if (round == 1 || (round == 2 && (i < u.size() / 2 || i % 3 == 2))) u.v[i] = 0;
        MC_TRAIL("upstream gradient number " << round + 2); m.backward(mk<T>(u)); rg = u; for (size_t k = net.size(); k-- > 0;) rg = r[k]->bwd(rg);
    }
    if (!numeric || sizeof(T) == 4) return;
    // the reference's own gradients against differences of the loss; and the real model's against its own loss
    auto at = [&](double& v, double keep) { double h = 1e-5 * std::max(1.0, std::fabs(keep)), d; v = keep + h; double up = lossOf(lossKind, forward(r, x), t); v = keep - h; double dn = lossOf(lossKind, forward(r, x), t); v = keep; d = (up - dn) / (2 * h); return d; };
    double loose = 2e-5 * amp * amp; if (loose > 0.02) return;
    RT keepIn = rg; std::vector<std::vector<RT>> gs; for (auto& l : r) gs.push_back(l->g);
    for (size_t k = 0; k < net.size(); ++k) for (size_t w = 0; w < r[k]->p.size(); ++w) for (size_t i = 0; i < r[k]->p[w].size(); i += 1 + r[k]->p[w].size() / 5) { double& v = r[k]->p[w].v[i]; double d = at(v, v), want = gs[k][w].v[i]; MC_CHECK(std::fabs(d - want) <= loose * (1 + std::fabs(want)), "the reference disagrees with numerical differentiation: parameter " << w << " of layer " << k << " entry " << i << ": " << want << " against " << d); }
    for (size_t i = 0; i < x.size(); i += 1 + x.size() / 6) {
        double d = at(x.v[i], x.v[i]); MC_CHECK(std::fabs(d - keepIn.v[i]) <= loose * (1 + std::fabs(d)), "the reference disagrees with numerical differentiation at input " << i << ": " << keepIn.v[i] << " against " << d);
        double h = 1e-5, side[2]; for (int s = 0; s < 2; ++s) { RT z = x; z.v[i] += s ? -h : h; RandomEngine::getInstance() = engine; Tensor<T> v = mk<T>(z); for (size_t k = 0; k < net.size(); ++k) v = m.getLayer(k)->forward(v); side[s] = rd(L->compute(v, tt)).v[0]; }
        double q = (side[0] - side[1]) / (2 * h), have = rd(g).v[i]; MC_CHECK(std::fabs(q - have) <= loose * (1 + std::fabs(q)), "input gradient " << i << " is " << have << ", the difference quotient of the model's own loss is " << q); mc::trace();
    }
}
static std::vector<LS> alphabet(const Dims& d, int level) { // level 0: everything, 1: reduced
    std::vector<LS> r; auto A = [&](int k) { r.push_back(act(k)); };
    if (d.size() <= 2) { int w = d.back(); if (level == 0) { r.push_back(fc(w, 1)); r.push_back(fc(w, 3)); } r.push_back(fc(w, 2)); if (d.size() == 2) { r.push_back(bn(w)); A(acts::NKINDS); if (level == 0) r.push_back(flat()); } r.push_back(drop(0.5)); A(acts::TANH); if (level == 0) for (int k : {acts::RELU, acts::LEAKY, acts::SIGMOID, acts::SWISH, acts::MISH, acts::LEAKY3}) A(k); else A(acts::RELU); return r; }
    if (d.size() == 4) {
        int c = d[1]; r.push_back(conv(c, 2, 2, 2)); r.push_back(conv(c, 1, 3, 3, 1, 1)); r.push_back(pool(2, 2)); r.push_back(bn(c)); r.push_back(flat()); A(acts::RELU);
        if (level == 0) { r.push_back(conv(c, 3, 1, 2, 2, 0)); r.push_back(conv(c, 2, 2, 1, 1, 1, 2)); r.push_back(conv(c, 1, 2, 3, 2, 1)); r.push_back(conv(c, c, 1, 1)); r.push_back(pool(2, 1)); r.push_back(pool(3, 2, 1)); r.push_back(pool(1, 1)); r.push_back(drop(0.25)); for (int k : {acts::LEAKY, acts::SIGMOID, acts::TANH, acts::SWISH, acts::MISH, acts::NKINDS}) A(k); }
        return r;
    }
    r.push_back(flat()); r.push_back(drop(0.5)); A(acts::SIGMOID); A(acts::NKINDS); A(acts::RELU); return r;
}
static bool next(const LS& l, const Dims& d, Dims& out) { if (l.k == DROP) { out = d; return true; } auto m = model<double>(l, 0); if (!m->accepts(d)) return false; if (l.k == POOL && l.pad >= l.kh) return false; out = m->fwd(RT(d)).d; return prod(out) <= 200; }
static uint64_t nets_ = 0;
static void grow(Net& n, const Dims& in, const Dims& cur, int depth, int level, int num) {
    if (!n.empty()) {
        bool modes = false; for (auto& l : n) modes |= l.k == BN || l.k == DROP; bool prob = cur.size() == 2 && n.back().k == ACT && (n.back().a == acts::NKINDS || n.back().a == acts::SIGMOID); Net c = n; uint64_t id = nets_++;
        mc::run([&] { return str(c) + " on " + ref::str(in); }, [&] { check<double>(c, in, 0, false, id % num == 0); if (prob) check<double>(c, in, 1, false, id % num == 0); if (modes) { check<double>(c, in, 0, true, false); if (prob) check<double>(c, in, 1, true, false); } if (id % 3 == 0) check<float>(c, in, 0, false, false); });
    }
    if (depth == 0) return;
    for (auto& l : alphabet(cur, level)) { Dims o; if (!next(l, cur, o)) continue; n.push_back(l); grow(n, in, o, depth - 1, level, num); n.pop_back(); }
}
void explore() {
    bool full = mc::thorough(); Net n; int num = full ? 1 : 3;
    std::vector<Dims> ins = {{2, 3}, {3}, {1, 2}, {2, 2, 4, 4}, {1, 1, 5, 4}, {2, 2, 3}, {3, 1}, {3, 2, 2, 3}}; if (full) ins.insert(ins.end(), {{4, 4}, {1, 3, 4, 4}, {2, 1, 2, 5}, {5}});
    int d2 = full ? 4 : 3, d4 = full ? 4 : 3, r2 = full ? 7 : 5, r4 = full ? 6 : 4;
    mc::bound("stacks", "all stacks of depth 1.." + std::to_string(d2) + " over the full layer alphabet (fully connected, eight convolutions, four poolings, normalization, flatten, dropout, eight activations) and of depth up to " + std::to_string(r2) + " (images: " + std::to_string(r4) + ") over a reduced one, where the shapes fit, on " + std::to_string(ins.size()) + " input shapes");
    mc::bound("losses", "mean squared error on all, cross-entropy on stacks ending in softmax or sigmoid; training mode on all, evaluation mode on stacks with normalization or dropout");
    for (auto& in : ins) grow(n, in, in, in.size() == 4 ? (in[0] == 3 && !full ? 2 : d4) : d2, 0, num * 4);
    for (auto& in : std::vector<Dims>{{2, 3}, {3, 2}, {2, 1, 4, 4}, {2, 2, 4, 5}, {2}}) grow(n, in, in, in.size() == 4 ? r4 : r2, 1, num * 3);
    if (mc::g().only < 0) mc::bound("skipped", std::to_string(skipped) + " runs of shard " + std::to_string(mc::g().shard) + " (no data off the kinks found, or ill-conditioned in float)");
}

// C33: training learns what its model can represent.
#include "nets.hpp"
#include "smart_dnn/Datasets/SampleGenerator.hpp"
using namespace nets;
typedef std::vector<double> V;
static bool survey() { static bool s = getenv("C33_SURVEY"); return s; } // only shows how clearly things are learned; to choose the bounds
// ---- linear models: the theory of gradient descent gives the trajectory and the rate ----
struct Data { int n, d, o; V x, y; }; // one batch
static V hessian(const Data& a) { // of the mean squared error, for one output column (all columns alike); d features and the constant
    int m = a.d + 1; V h(m * m, 0); for (int r = 0; r < a.n; ++r) for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) h[i * m + j] += 2.0 / (a.n * a.o) * (i < a.d ? a.x[r * a.d + i] : 1) * (j < a.d ? a.x[r * a.d + j] : 1); return h;
}
static void eigen(V h, int m, double& lo, double& hi) { // Jacobi
    for (int sweep = 0; sweep < 60; ++sweep) for (int p = 0; p < m; ++p) for (int q = p + 1; q < m; ++q) { if (std::fabs(h[p * m + q]) < 1e-15) continue; double th = (h[q * m + q] - h[p * m + p]) / (2 * h[p * m + q]), t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1)), c = 1 / std::sqrt(t * t + 1), s = t * c; for (int k = 0; k < m; ++k) { double u = h[k * m + p], v = h[k * m + q]; h[k * m + p] = c * u - s * v; h[k * m + q] = s * u + c * v; } for (int k = 0; k < m; ++k) { double u = h[p * m + k], v = h[q * m + k]; h[p * m + k] = c * u - s * v; h[q * m + k] = s * u + c * v; } }
    lo = hi = h[0]; for (int i = 0; i < m; ++i) { lo = std::min(lo, h[i * m + i]); hi = std::max(hi, h[i * m + i]); }
}
static double lossOf(const Data& a, const V& th) { double s = 0; for (int r = 0; r < a.n; ++r) for (int c = 0; c < a.o; ++c) { double p = th[a.d * a.o + c]; for (int i = 0; i < a.d; ++i) p += a.x[r * a.d + i] * th[i * a.o + c]; s += (p - a.y[r * a.o + c]) * (p - a.y[r * a.o + c]); } return s / (a.n * a.o); }
static V gradOf(const Data& a, const V& th) { V g(th.size(), 0); for (int r = 0; r < a.n; ++r) for (int c = 0; c < a.o; ++c) { double p = th[a.d * a.o + c]; for (int i = 0; i < a.d; ++i) p += a.x[r * a.d + i] * th[i * a.o + c]; double e = 2 * (p - a.y[r * a.o + c]) / (a.n * a.o); for (int i = 0; i < a.d; ++i) g[i * a.o + c] += e * a.x[r * a.d + i]; g[a.d * a.o + c] += e; } return g; }
static V solve(V h, V b, int m, int o) { // Gauss with pivoting
    for (int c = 0; c < m; ++c) { int p = c; for (int r = c; r < m; ++r) if (std::fabs(h[r * m + c]) > std::fabs(h[p * m + c])) p = r; for (int k = 0; k < m; ++k) std::swap(h[c * m + k], h[p * m + k]); for (int k = 0; k < o; ++k) std::swap(b[c * o + k], b[p * o + k]); for (int r = 0; r < m; ++r) if (r != c) { double f = h[r * m + c] / h[c * m + c]; for (int k = 0; k < m; ++k) h[r * m + k] -= f * h[c * m + k]; for (int k = 0; k < o; ++k) b[r * o + k] -= f * b[c * o + k]; } }
    for (int c = 0; c < m; ++c) for (int k = 0; k < o; ++k) b[c * o + k] /= h[c * m + c]; return b;
}
static V bestFit(const Data& a) { V z((a.d + 1) * a.o, 0), g = gradOf(a, z); for (double& v : g) v = -v; return solve(hessian(a), g, a.d + 1, a.o); }
static double dist(const V& a, const V& b) { double s = 0; for (size_t i = 0; i < a.size(); ++i) s += (a[i] - b[i]) * (a[i] - b[i]); return std::sqrt(s); }
static double norm(const V& a) { return dist(a, V(a.size(), 0)); }
static std::string str(const V& v) { std::ostringstream o; o << "("; for (size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << v[i]; o << ")"; return o.str(); }
static std::string str(const Data& a) { return "inputs " + str(a.x) + " targets " + str(a.y); }
template <class T> struct Linear {
    SmartDNN<T> m; int d, o; V w; bool asList;
    Linear(int d_, int o_, const opts::Opt& op, unsigned seed) : d(d_), o(o_) { RandomEngine::setSeed(seed); add(m, fc(d, o)); nets::compile(m, 0, op); RT w0 = pat({d, o}, 4, seed), b0 = pat({1, o}, 2, seed + 1); w.assign((d + 1) * o, 0); for (int i = 0; i < d * o; ++i) w[i] = (double)T(w0.v[i] * 0.5); for (int c = 0; c < o; ++c) w[d * o + c] = (double)T(b0.v[c] * 0.5); auto& l = dynamic_cast<FullyConnectedLayer<T>&>(*m.getLayer(0)); Tensor<T> tw(Shape{d, o}), tb(Shape{1, o}); for (int i = 0; i < d * o; ++i) tw.getData().data()[i] = T(w[i]); for (int c = 0; c < o; ++c) tb.getData().data()[c] = T(w[d * o + c]); l.setWeights(tw); l.setBiases(tb); }
    V now() { V r; Tensor<T> zero(Shape{1, d}, T(0)); RT b = rd(m.predict(zero)); for (int i = 0; i < d; ++i) { Tensor<T> e(Shape{1, d}, T(0)); e.getData().data()[i] = T(1); RT y = rd(m.predict(e)); for (int c = 0; c < o; ++c) r.push_back(y.v[c] - b.v[c]); } for (int c = 0; c < o; ++c) r.push_back(b.v[c]); return r; }
    std::string train(const std::vector<Data>& bs, int epochs) { std::vector<Tensor<T>> x, y; for (auto& b : bs) { RT rx({b.n, d}, 0), ry({b.n, o}, 0); rx.v = b.x; ry.v = b.y; x.push_back(mk<T>(rx)); y.push_back(mk<T>(ry)); } Quiet q; m.train(x, y, epochs); return q.text(); }
};
static std::vector<double> reported(const std::string& text) { std::vector<double> r; std::istringstream in(text); std::string line; while (std::getline(in, line)) { size_t e = line.find_last_of("0123456789"); if (e == std::string::npos) continue; size_t s = e; while (s > 0 && strchr("0123456789.eE+-", line[s - 1])) --s; r.push_back(atof(line.substr(s, e - s + 1).c_str())); } return r; }
// the whole batch at every epoch: the loss falls by the guaranteed amount, down to the best fit
template <class T> static void descent(const Data& a, double c, int epochs) {
    double lo, hi; V h = hessian(a); eigen(h, a.d + 1, lo, hi); double lr = (double)T(c / hi), rate = std::max(std::fabs(1 - lr * lo), std::fabs(1 - lr * hi)); opts::Opt op{opts::SGD, lr};
    V best = bestFit(a); double floor = lossOf(a, best); Linear<T> m(a.d, a.o, op, 3); V th = m.w; double eps = std::is_same<T, float>::value ? 2e-6 : 1e-13, big = 1; for (double v : a.x) big = std::max(big, std::fabs(v)); double scale = 1; for (double v : a.y) scale = std::max(scale, std::fabs(v)); for (double v : th) scale = std::max(scale, std::fabs(v)); for (double v : best) scale = std::max(scale, std::fabs(v));
    double tol = eps * scale * big * 8 * (1 + std::min((double)epochs, 1 / std::max(1 - rate, 1e-3))), before = lossOf(a, th), first = before - floor; std::string w = "plain gradient descent with " + std::to_string(c) + " of the critical rate on " + str(a);
    V last = m.now(); MC_CHECK(dist(last, th) <= tol, w << ": the model starts at " << str(last) << ", its parameters were set to " << str(th));
    std::vector<double> losses = {before};
    for (int e = 1; e <= epochs; ++e) {
        auto rep = reported(m.train({a}, 1)); V g = gradOf(a, th); for (size_t i = 0; i < th.size(); ++i) th[i] -= lr * g[i]; V got = m.now(); double f = lossOf(a, got); mc::step(2);
        MC_CHECK(rep.size() == 1 && std::fabs(rep[0] - losses.back()) <= 1e-5 * (losses.back() + tol * scale * big) + tol * tol, w << ": epoch " << e << " reports the loss " << (rep.empty() ? NAN : rep[0]) << ", it is " << losses.back());
        MC_CHECK(dist(got, th) <= tol, w << ": after epoch " << e << " the model is " << str(got) << ", gradient descent gives " << str(th));
        double slack = tol * tol * big * big * 4 + tol * std::sqrt(std::max(f, floor)) * big * 4;
        MC_CHECK(f <= losses.back() + slack, w << ": epoch " << e << " raises the loss from " << losses.back() << " to " << f);
        MC_CHECK(f - floor <= std::pow(rate, 2 * e) * first * 1.001 + slack, w << ": after epoch " << e << " the loss exceeds its minimum by " << f - floor << ", descent guarantees " << std::pow(rate, 2 * e) * first);
        losses.push_back(f);
    }
    { Linear<T> k(a.d, a.o, op, 3); k.train({a}, epochs); V got = k.now(); MC_CHECK(dist(got, th) <= tol, w << ": " << epochs << " epochs in one call give " << str(got) << ", gradient descent " << str(th)); mc::step(epochs); uint64_t hh = 7; for (double v : got) { uint64_t b; memcpy(&b, &v, 8); hh = mc::mix(hh, b); } mc::state(hh); }
    mc::trace();
}
// several batches that follow one linear rule: no step leads away from it
template <class T> static void towards(const std::vector<Data>& bs, const V& rule, double c, int epochs) {
    double hi = 0, lo; for (auto& b : bs) { double h; eigen(hessian(b), b.d + 1, lo, h); hi = std::max(hi, h); } double lr = (double)T(c / hi); Linear<T> m(bs[0].d, bs[0].o, opts::Opt{opts::SGD, lr}, 3); V th = m.w; double scale = 1, eps = std::is_same<T, float>::value ? 2e-6 : 1e-13; for (auto& b : bs) { for (double v : b.x) scale = std::max(scale, std::fabs(v)); for (double v : b.y) scale = std::max(scale, std::fabs(v)); } double tol = eps * scale * scale * 10 * epochs, d = dist(th, rule); std::string w = std::to_string(bs.size()) + " batches of the rule " + str(rule) + ", the first with " + str(bs[0]);
    for (int e = 1; e <= epochs; ++e) { m.train(bs, 1); for (auto& b : bs) { V g = gradOf(b, th); for (size_t i = 0; i < th.size(); ++i) th[i] -= lr * g[i]; } V got = m.now(); double nd = dist(got, rule); MC_CHECK(dist(got, th) <= tol, w << ": after epoch " << e << " the model is " << str(got) << ", incremental gradient descent gives " << str(th)); MC_CHECK(nd <= d + tol, w << ": epoch " << e << " increases the distance to the rule from " << d << " to " << nd); d = nd; mc::step(bs.size() + 1); }
    Linear<T> k(bs[0].d, bs[0].o, opts::Opt{opts::SGD, lr}, 3); k.train(bs, epochs); MC_CHECK(dist(k.now(), th) <= tol, w << ": " << epochs << " epochs in one call give " << str(k.now()) << ", incremental gradient descent " << str(th)); mc::step(epochs * bs.size()); mc::trace();
}
// one long call is as good as many short ones: the same model, bit for bit (the order of the steps is the same)
template <class T> static void inOneGo(const std::vector<Data>& bs, const opts::Opt& o, int epochs) {
    Linear<T> a(bs[0].d, bs[0].o, o, 3), b(bs[0].d, bs[0].o, o, 3), c(bs[0].d, bs[0].o, o, 3); auto ra = reported(a.train(bs, epochs)); std::vector<double> rb; for (int e = 0; e < epochs; ++e) { auto r = reported(b.train(bs, 1)); MC_CHECK(r.size() == 1, "one epoch reports " << r.size() << " losses"); rb.push_back(r[0]); } for (int e = 0; e < epochs; e += 37) c.train(bs, std::min(37, epochs - e));
    V x = a.now(), y = b.now(), z = c.now(); std::string w = opts::str(o) + ", " + std::to_string(bs.size()) + " batches, the first with " + str(bs[0]); MC_CHECK(x == y && x == z, w << ": " << epochs << " epochs in one call give " << str(x) << ", in single calls " << str(y) << ", in calls of 37 " << str(z)); MC_CHECK(ra == rb, w << ": the losses reported by one call differ from those reported by single ones"); mc::step(3 * epochs * bs.size()); mc::trace();
}
// any optimizer finds the rule
struct Way { opts::Opt o; int epochs; double tol; };
static std::vector<Way> ways(double lin) {
    using namespace opts; std::vector<Way> r; (void)lin;
    Opt s{SGD, 0.05}; r.push_back({s, 800, 0.02}); s.momentum = 0.9; s.lr = 0.02; r.push_back({s, 400, 0.02}); s.nesterov = true; r.push_back({s, 400, 0.02});
    Opt m{RMS, 0.01}; m.alpha = 0.9; r.push_back({m, 900, 0.1}); m.lr = 0.005; m.momentum = 0.5; r.push_back({m, 900, 0.1});
    Opt a{ADAM, 0.05}; r.push_back({a, 600, 0.05}); a.lr = 0.2; a.decay = 0.01; r.push_back({a, 600, 0.05}); return r;
}
template <class T> static void finds(const std::vector<Data>& bs, const V& rule, const Way& y) {
    Linear<T> m(bs[0].d, bs[0].o, y.o, 3); m.train(bs, y.epochs); V got = m.now(); mc::step(y.epochs * bs.size()); mc::trace(); if (survey()) return (void)fprintf(stderr, "FINDS %.4f %s %s\n", dist(got, rule) / (y.tol * (1 + norm(rule))), opts::str(y.o).c_str(), str(rule).c_str());
    MC_CHECK(dist(got, rule) <= y.tol * (1 + norm(rule)), opts::str(y.o) << ", " << y.epochs << " epochs over " << bs.size() << " batches of the rule " << str(rule) << ", the first with " << str(bs[0]) << ": the model is " << str(got));
}
// ---- Boolean functions ----
struct Learner { Net net; int loss; opts::Opt o; int epochs; };
template <class T> static void boolean(int bits, unsigned table, const Learner& l, int batch, unsigned seed) {
    int n = 1 << bits, out = l.loss ? 2 : 1; RandomEngine::setSeed(seed); SmartDNN<T> m; for (auto& k : l.net) add(m, k); nets::compile(m, l.loss, l.o); std::vector<Tensor<T>> xs, ys;
    for (int at = 0; at < n; at += batch) { RT x({batch, bits}, 0), y({batch, out}, 0); for (int r = 0; r < batch; ++r) { int v = at + r; for (int k = 0; k < bits; ++k) x.v[r * bits + k] = v >> k & 1 ? 1 : -1; bool t = table >> v & 1; if (out == 2) y.v[r * 2 + t] = 1; else y.v[r] = t; } xs.push_back(mk<T>(x)); ys.push_back(mk<T>(y)); }
    std::string w = "the truth table " + std::to_string(table) + " of " + std::to_string(bits) + " inputs, " + nets::str(l.net) + ", " + opts::str(l.o) + ", batches of " + std::to_string(batch) + ", seed " + std::to_string(seed);
    std::string text; { Quiet q; m.train(xs, ys, l.epochs); text = q.text(); } m.evalMode(); mc::step(l.epochs * xs.size()); mc::trace(); auto rep = reported(text); double worst = 1e9; uint64_t h = 1;
    for (size_t b = 0; b < xs.size(); ++b) { RT p = rd(m.predict(xs[b])); for (int r = 0; r < batch; ++r) { bool t = table >> (b * batch + r) & 1; double margin = out == 2 ? p.v[r * 2 + t] - p.v[r * 2 + !t] : (t ? 1 : -1) * (p.v[r] - 0.5) * 2; worst = std::min(worst, margin); if (!std::isfinite(margin)) worst = -1e9; uint64_t bb; memcpy(&bb, &margin, 8); h = mc::mix(h, bb); } }
    mc::state(h); if (survey()) return (void)fprintf(stderr, "MARGIN %.3f loss %.4g %s\n", worst, rep.back(), w.c_str());
    MC_CHECK((int)rep.size() == l.epochs, w << ": " << rep.size() << " epochs reported"); MC_CHECK(worst > 0, w << ": not learned after " << l.epochs << " epochs (margin " << worst << ", last loss " << rep.back() << ")"); MC_CHECK(rep.back() < rep.front(), w << ": the loss went from " << rep.front() << " to " << rep.back());
}
// ---- pictures: which of the bars is in the picture, wherever it is ----
static RT picture(int k, int side) { RT r({1, side, side}, 0); if (k < side) for (int i = 0; i < side; ++i) r.v[k * side + i] = 1; else for (int i = 0; i < side; ++i) r.v[i * side + k - side] = 1; return r; }
template <class T> static void bars(const Learner& l, int side, int batch, unsigned seed) {
    RandomEngine::setSeed(seed); SmartDNN<T> m; for (auto& k : l.net) add(m, k); nets::compile(m, l.loss, l.o); std::vector<Tensor<T>> xs, ys; int n = 2 * side;
    for (int at = 0; at < n; at += batch) { RT x({batch, 1, side, side}, 0), y({batch, 2}, 0); for (int r = 0; r < batch; ++r) { int k = ((at + r) % 2) * side + (at + r) / 2; RT p = picture(k, side); std::copy(p.v.begin(), p.v.end(), x.v.begin() + r * side * side); y.v[r * 2 + (k >= side)] = 1; } xs.push_back(mk<T>(x)); ys.push_back(mk<T>(y)); }
    std::string w = "bars in pictures of " + std::to_string(side) + "x" + std::to_string(side) + ", " + nets::str(l.net) + ", " + opts::str(l.o) + ", batches of " + std::to_string(batch) + ", seed " + std::to_string(seed);
    std::string text; { Quiet q; m.train(xs, ys, l.epochs); text = q.text(); } m.evalMode(); mc::step(l.epochs * xs.size()); mc::trace(); auto rep = reported(text); double worst = 1e9; uint64_t h = 2;
    for (int k = 0; k < n; ++k) { RT x({1, 1, side, side}, 0); x.v = picture(k, side).v; RT p = rd(m.predict(mk<T>(x))); int t = k >= side; double mg = l.loss || p.v.size() == 2 ? p.v[t] - p.v[!t] : 0; if (!std::isfinite(mg)) mg = -1e9; worst = std::min(worst, mg); uint64_t bb; memcpy(&bb, &mg, 8); h = mc::mix(h, bb); }
    mc::state(h); if (survey()) return (void)fprintf(stderr, "MARGIN %.3f loss %.4g %s\n", worst, rep.back(), w.c_str());
    MC_CHECK(worst > 0, w << ": not learned after " << l.epochs << " epochs (margin " << worst << ", last loss " << rep.back() << ")"); MC_CHECK(rep.back() < rep.front(), w << ": the loss went from " << rep.front() << " to " << rep.back());
}
void explore() {
    bool full = mc::thorough(); const double vals[] = {-1, 0, 1, 2}; const double cs[] = {0.3, 1, 1.6};
    std::vector<Data> sets;
    for (int n = 2; n <= 3; ++n) { int c = 1; for (int i = 0; i < n; ++i) c *= 4; for (int k = 0; k < c; ++k) { Data a{n, 1, 1, {}, {}}; for (int i = 0, q = k; i < n; ++i, q /= 4) a.x.push_back(vals[q % 4]); sets.push_back(a); } }
    for (int p = 0; p < 16; ++p) for (int q = p; q < 16; ++q) for (int r = q; r < 16; ++r) { Data a{3, 2, 1, {}, {}}; for (int v : {p, q, r}) { a.x.push_back(vals[v % 4]); a.x.push_back(vals[v / 4]); } sets.push_back(a); }
    size_t kept = 0; std::vector<Data> all;
    for (auto& a : sets) { double lo, hi; eigen(hessian(a), a.d + 1, lo, hi); if (lo < 0.01 * hi) continue; ++kept; // well-posed sets
        for (int o = 1; o <= 2; ++o) for (int t = 0; t < 3; ++t) { if (o == 2 && t == 1 && !full) continue; Data b = a; b.o = o; for (int r = 0; r < b.n; ++r) for (int c = 0; c < o; ++c) { double y = t == 0 ? 1.5 : t == 1 ? -0.5 : (r * r * 3 + c * 2) % 5 - 1.0; if (t < 2) for (int i = 0; i < b.d; ++i) y += (t ? 1 : -1) * (2 + i - c) * b.x[r * b.d + i]; b.y.push_back(y); } all.push_back(b); } }
    mc::bound("descent", "all well-posed batches of 2 or 3 samples with one feature, and all multisets of 3 samples with two, over the values -1, 0, 1, 2 (" + std::to_string(kept) + "), exact and inexact targets, one and two outputs, rates of 0.3, 1 and 1.6 times the inverse curvature, 25 epochs, float and double");
    for (size_t i = 0; i < all.size(); ++i) mc::run([&] { return "descent on " + str(all[i]); }, [&] { for (double c : cs) { descent<float>(all[i], c, full ? 60 : 25); if (full || i % 4 == 0) descent<double>(all[i], c, full ? 60 : 25); } });
    mc::bound("several batches", "all pairs and triples of batches of 1 to 3 samples from a list, each following one of 4 rules, 15 epochs");
    std::vector<V> rules = {{2, 3}, {-1, 0.5}, {0, -2}, {0.5, 0}}; std::vector<V> xs = {{1}, {-1}, {2, 0}, {1, -1}, {0, 1, 2}, {-2, 0.5, 1}, {0}, {3}};
    auto make = [&](const V& x, const V& rule) { Data a{(int)x.size(), 1, 1, x, {}}; for (double v : x) a.y.push_back(rule[0] * v + rule[1]); return a; };
    for (auto& rule : rules) for (size_t i = 0; i < xs.size(); ++i) for (size_t j = 0; j < xs.size(); ++j) mc::run([&] { return "batches " + str(xs[i]) + " and " + str(xs[j]) + " of the rule " + str(rule); }, [&] { for (double c : {0.5, 1.0, 1.8}) { towards<float>({make(xs[i], rule), make(xs[j], rule)}, rule, c, 15); for (size_t k = 0; k < xs.size(); ++k) if (full || (i + j + k) % 3 == 0) towards<double>({make(xs[i], rule), make(xs[j], rule), make(xs[k], rule)}, rule, c, 15); } });
    auto ws = ways(0); mc::bound("optimizers", std::to_string(ws.size()) + " optimizer configurations, each finding each of the rules from one to three batches");
    for (auto& rule : rules) for (auto& y : ws) mc::run([&] { return opts::str(y.o) + " finding " + str(rule); }, [&] { for (auto& bs : std::vector<std::vector<V>>{{{0, 1, 2}}, {{1, -1}, {0, 2}}, {{-1}, {1}, {0.5}}, {{-1.5, -0.5, 0.5, 1.5}}}) { std::vector<Data> d; for (auto& x : bs) d.push_back(make(x, rule)); finds<float>(d, rule, y); finds<double>(d, rule, y); } });
    mc::bound("one call or many", "the same optimizers and rules: one call of " + std::to_string(full ? 1500 : 310) + " epochs, single calls, and calls of 37");
    for (auto& rule : rules) for (auto& y : ws) mc::run([&] { return opts::str(y.o) + ", one call or many, " + str(rule); }, [&] { for (auto& bs : std::vector<std::vector<V>>{{{0, 1, 2}}, {{1, -1}, {0, 2}}, {{-1}, {1}, {0.5}}}) { std::vector<Data> d; for (auto& x : bs) d.push_back(make(x, rule)); inOneGo<float>(d, y.o, full ? 1500 : 310); inOneGo<double>(d, y.o, full ? 1500 : 310); } });
    // Boolean functions
    using namespace acts; opts::Opt adam{opts::ADAM, 0.03}, rms{opts::RMS, 0.01}, sgd{opts::SGD, 0.1}, slow{opts::ADAM, 0.02}; rms.alpha = 0.9; sgd.momentum = 0.9; opts::Opt reg = adam; reg.l2 = 1e-4; reg.decay = 1e-3;
    auto learners = [&](int bits) { // ways that leave no seed behind (plain ReLU units may die and slow ways may stay on a plateau, which is no defect)
        std::vector<Learner> r; for (int a : {LEAKY, SIGMOID, TANH, SWISH, MISH}) for (auto& o : {adam, rms, sgd}) { if (o.kind == opts::SGD && a != TANH) continue; if (a == LEAKY && bits == 3) continue; r.push_back({{fc(bits, 16), act(a), fc(16, 1)}, 0, o, 400}); }
        for (int a : {TANH, SWISH}) r.push_back({{fc(bits, 16), act(a), fc(16, 2), act(NKINDS)}, 1, adam, 300}); r.push_back({{fc(bits, 16), bn(16), act(TANH), fc(16, 1)}, 0, adam, 300}); r.push_back({{fc(bits, 8), act(TANH), fc(8, 8), act(TANH), fc(8, 1)}, 0, adam, 400}); r.push_back({{fc(bits, 16), act(TANH), fc(16, 1)}, 0, reg, 400}); return r; };
    unsigned S = full ? 12 : 1;
    mc::bound("Boolean functions", "all functions of 1, 2 and 3 inputs (4, 16, 256), whole truth table per batch, " + std::to_string(learners(3).size()) + " networks and optimizers each or more, " + std::to_string(4 * S) + " seeds (" + std::to_string(S) + " for 3 inputs); all functions of 2 inputs in all batch sizes, float and double");
    for (int bits : {1, 2, 3}) for (auto& l : learners(bits)) for (unsigned t = 0; t < (1u << (1 << bits)); ++t) mc::run([&] { return "truth table " + std::to_string(t) + " of " + std::to_string(bits) + " inputs, " + nets::str(l.net) + ", " + opts::str(l.o); }, [&] { for (unsigned seed = 1; seed <= (bits == 3 ? S : 4 * S); ++seed) boolean<float>(bits, t, l, 1 << bits, seed); });
    std::vector<Learner> small; for (int a : {LEAKY, SIGMOID, TANH}) small.push_back({{fc(2, 16), act(a), fc(16, 1)}, 0, slow, a == LEAKY ? 600 : 400}); small.push_back({{fc(2, 16), act(LEAKY), fc(16, 1)}, 0, opts::Opt{opts::SGD, 0.1}, 400}); small.push_back({{fc(2, 16), act(LEAKY), fc(16, 2), act(NKINDS)}, 1, slow, 300});
    for (auto& l : small) for (unsigned t = 0; t < 16; ++t) for (int batch : {1, 2, 4}) mc::run([&] { return "truth table " + std::to_string(t) + " in batches of " + std::to_string(batch) + ", " + nets::str(l.net) + ", " + opts::str(l.o); }, [&] { for (unsigned seed = 1; seed <= 2 * S; ++seed) { boolean<float>(2, t, l, batch, seed); boolean<double>(2, t, l, batch, seed); } });
    // pictures
    std::vector<Learner> pics; auto cnn = [&](Net n, int loss, const opts::Opt& o, int e) { pics.push_back({n, loss, o, e}); };
    cnn({conv(1, 8, 3, 3), act(RELU), pool(2, 1), flat(), fc(8, 2), act(NKINDS)}, 1, adam, 150);
    cnn({conv(1, 8, 3, 3, 1, 1), bn(8), act(RELU), pool(2, 2), flat(), fc(32, 2), act(NKINDS)}, 1, slow, 100);
    cnn({conv(1, 8, 3, 3), act(TANH), pool(2, 1), flat(), drop(0.25), fc(8, 16), act(TANH), fc(16, 2), act(NKINDS)}, 1, opts::Opt{opts::ADAM, 0.01}, 300); cnn({conv(1, 8, 3, 3, 1, 1), bn(8), act(RELU), pool(2, 2), flat(), drop(0.25), fc(32, 2), act(NKINDS)}, 1, opts::Opt{opts::ADAM, 0.01}, 200);
    cnn({conv(1, 8, 2, 2, 2), act(TANH), flat(), fc(32, 2)}, 0, slow, 200); cnn({conv(1, 4, 2, 2), act(TANH), conv(4, 4, 2, 2), act(TANH), flat(), fc(16, 2), act(NKINDS)}, 1, slow, 200); cnn({flat(), fc(16, 16), act(RELU), fc(16, 2), act(NKINDS)}, 1, slow, 200);
    mc::bound("pictures", "all bars in pictures of 4x4, told apart by " + std::to_string(pics.size()) + " networks with convolution, normalization, pooling and dropout, batches of 8, 4 and 2, " + std::to_string(6 * S) + " seeds");
    for (auto& l : pics) for (int batch : {8, 4, 2}) for (unsigned seed = 1; seed <= 6 * S; ++seed) mc::run([&] { return "bars, " + nets::str(l.net) + ", batches of " + std::to_string(batch) + ", seed " + std::to_string(seed); }, [&] { bars<float>(l, 4, batch, seed); if (seed == 1) bars<double>(l, 4, batch, seed); });
}

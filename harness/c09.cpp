// C09: factories are exact, random values bounded, seeded sequences reproducible.
#include "ref.hpp"
#include <unordered_map>
using namespace ref;

template <class T> static void factories(const Dims& d) {
    typedef Tensor<T> X; typedef smart_dnn::TensorOperations<T, CPUDevice> O;
    expectExact(X::ones(Shape(d)), RT(d, 1), "ones " + str(d)); expectExact(X::zeros(Shape(d)), RT(d, 0), "zeros " + str(d));
    for (double v : {0.0, -2.5, 1.0, 1e6}) expectExact(X(O::createFill(Shape(d), T(v))), RT(d, v), "fill " + str(d));
    RandomEngine::setSeed(mc::g().seed);
    for (int k = 0; k < 3; ++k) {
        RT r = rd(X::rand(Shape(d))); MC_CHECK(r.d == d, "rand has shape " << str(r.d)); for (double x : r.v) MC_CHECK(x >= 0 && x <= 1, "rand gave " << x); mc::step();
        for (auto mm : std::vector<std::pair<double, double>>{{-1, 1}, {0, 1}, {-0.5, 0.25}, {2, 3}, {-3, -2}, {0.125, 0.125}, {-100, 100}}) {
            RT q = rd(X::randn(Shape(d), T(mm.first), T(mm.second))); MC_CHECK(q.d == d, "randn has shape " << str(q.d));
            for (double x : q.v) MC_CHECK(x >= mm.first && x <= mm.second, "randn(" << mm.first << "," << mm.second << ") gave " << x); mc::step(); mc::state(hash(q));
        }
    }
    if (d.size() == 1) {
        int n = d[0]; expectExact(X::ones(n), RT(d, 1), "ones(n)"); expectExact(X::zeros(n), RT(d, 0), "zeros(n)");
        RT id({n, n}); for (int i = 0; i < n; ++i) id.at({i, i}) = 1; expectExact(X::identity(n), id, "identity(" + std::to_string(n) + ")");
        RT r = rd(X::rand(n)); MC_CHECK(r.d == d, "rand(n)"); for (double x : r.v) MC_CHECK(x >= 0 && x <= 1, "rand gave " << x);
        r = rd(X::randn(n, T(-2), T(2))); MC_CHECK(r.d == d, "randn(n)"); for (double x : r.v) MC_CHECK(x >= -2 && x <= 2, "randn gave " << x);
    }
}
// the alphabet of random operations; each appends what it drew
typedef std::vector<double> Log;
static const std::vector<std::pair<std::string, std::function<void(Log&)>>>& alphabet() {
    static std::vector<std::pair<std::string, std::function<void(Log&)>>> a = {
        {"getRand", [](Log& l) { l.push_back(RandomEngine::getRand()); }},
        {"getRandRange(-2,3)", [](Log& l) { l.push_back(RandomEngine::getRandRange(-2, 3)); }},
        {"getXavierInit(4)", [](Log& l) { l.push_back(RandomEngine::getXavierInit(4)); }},
        {"getHeInit(3)", [](Log& l) { l.push_back(RandomEngine::getHeInit(3)); }},
        {"getHeRandRange(2,-1,1)", [](Log& l) { l.push_back(RandomEngine::getHeRandRange(2, -1, 1)); }},
        {"rand(3)", [](Log& l) { RT r = rd(Tensor<float>::rand(3)); l.insert(l.end(), r.v.begin(), r.v.end()); }},
        {"rand(2,2)", [](Log& l) { RT r = rd(Tensor<double>::rand(Shape({2, 2}))); l.insert(l.end(), r.v.begin(), r.v.end()); }},
        {"randn(1,3)", [](Log& l) { RT r = rd(Tensor<float>::randn(Shape({1, 3}), -1, 1)); l.insert(l.end(), r.v.begin(), r.v.end()); }},
    };
    return a;
}
static void sequences() {
    auto& al = alphabet(); int k = (int)al.size(); int L = mc::thorough() ? 4 : 3, PL = 2;
    std::vector<unsigned> seeds = {0u, 1u, 42u, 4294967295u};
    mc::bound("seeded sequences", "all words of up to " + std::to_string(L) + " random operations out of " + std::to_string(k) + " after every preceding activity of up to " + std::to_string(PL) + " operations, for seeds 0, 1, 42, 2^32-1");
    std::vector<std::vector<int>> prefixes = {{}}; for (int n = 1; n <= PL; ++n) words(n, k, [&](const std::vector<int>& w) { prefixes.push_back(w); });
    for (int n = 1; n <= L; ++n) words(n, k, [&](const std::vector<int>& w) {
        mc::run([&] { std::string s = "word"; for (int x : w) s += " " + al[x].first; return s; }, [&] {
            std::vector<Log> first(seeds.size());
            for (size_t p = 0; p < prefixes.size(); ++p) for (size_t q = 0; q < seeds.size(); ++q) {
                if (p > 20 && q > 0) continue;
                Log waste, l; RandomEngine::setSeed(7 + (unsigned)p); for (int x : prefixes[p]) al[x].second(waste);
                RandomEngine::setSeed(seeds[q]); for (int x : w) al[x].second(l);
                if (p == 0) { first[q] = l; uint64_t h = 5; for (double x : l) { float f = (float)x; uint32_t b; memcpy(&b, &f, 4); h = mc::mix(h, b); } mc::state(h); }
                else MC_CHECK(l == first[q], "after the preceding operations number " << p << " the same seed " << seeds[q] << " gives " << vstr(l) << " instead of " << vstr(first[q]));
                mc::step(w.size());
                if (p > 20 && p % 7) continue; // the seed that is in force already
                Log again; RandomEngine::setSeed(seeds[q]); waste.clear(); for (int x : prefixes[p]) al[x].second(waste);
                RandomEngine::setSeed(seeds[q]); for (int x : w) al[x].second(again);
                MC_CHECK(again == first[q], "seed " << seeds[q] << " set a second time, after the operations number " << p << ", gives " << vstr(again) << " instead of " << vstr(first[q]));
                mc::step(w.size());
            }
            RandomEngine::setSeed(seeds[1]); Log a; for (int r = 0; r < 3; ++r) for (int x : w) al[x].second(a);
            RandomEngine::setSeed(seeds[2]); Log b; for (int r = 0; r < 3; ++r) for (int x : w) al[x].second(b);
            MC_CHECK(a != b || a == Log(a.size(), a[0]), "two seeds give the same sequence " << vstr(a));
        });
    });
}
// ---- distributions: the empirical one over all seeds, against the named one (bounds that chance exceeds once in 10^9 times) ----
struct Law { std::string name; double lo, hi, sd; }; // uniform on [lo, hi] if sd = 0, otherwise normal with mean 0 clipped to [lo, hi]
static double below(const Law& l, double x, bool strictly) { // P(X <= x), P(X < x)
    if (l.sd == 0) return l.hi == l.lo ? (strictly ? x > l.lo : x >= l.lo) : std::min(1.0, std::max(0.0, (x - l.lo) / (l.hi - l.lo)));
    if (strictly ? x <= l.lo : x < l.lo) return 0; if (strictly ? x > l.hi : x >= l.hi) return 1; return 0.5 * std::erfc(-x / l.sd / std::sqrt(2.0));
}
static void follows(const Law& l, std::vector<double> v, const std::string& what) {
    std::sort(v.begin(), v.end()); size_t n = v.size(); double tol = std::sqrt(std::log(2e9) / (2.0 * n)) + 1e-6;
    for (size_t i = 0, j = 0; i < n; i = j) { while (j < n && v[j] == v[i]) ++j; double a = (double)i / n, b = (double)j / n; MC_CHECK(std::fabs(a - below(l, v[i], true)) <= tol && std::fabs(b - below(l, v[i], false)) <= tol, what << ": a fraction of " << a << " to " << b << " of " << n << " draws is below or at " << v[i] << ", expected " << below(l, v[i], true) << " to " << below(l, v[i], false)); }
}
static void independent(const Law& l, const std::vector<std::vector<double>>& draws, size_t lag, const std::string& what) { // of draws lag apart: all cells of an 8 by 8 grid
    auto cell = [&](double x) { return std::min(7, (int)(8 * below(l, x, false))); }; std::vector<double> c(64, 0), row(8, 0), col(8, 0); double n = 0;
    for (auto& d : draws) for (size_t i = 0; i + lag < d.size(); ++i) { int a = cell(d[i]), b = cell(d[i + lag]); c[a * 8 + b]++; row[a]++; col[b]++; ++n; }
    for (int a = 0; a < 8; ++a) for (int b = 0; b < 8; ++b) { double e = row[a] * col[b] / n, t = 25 / 3.0 + std::sqrt(69 + 50 * e); MC_CHECK(std::fabs(c[a * 8 + b] - e) <= t, what << ": of " << n << " pairs of draws " << lag << " apart " << c[a * 8 + b] << " fall in cell (" << a << "," << b << "), expected " << e); }
}
static void distribution(const Law& l, const std::function<std::vector<double>()>& draw, int seeds) {
    mc::run([&] { return "distribution of " + l.name; }, [&] {
        std::vector<std::vector<double>> all; std::vector<double> flat; for (int s = 0; s < seeds; ++s) { RandomEngine::setSeed(s * 2654435761u + 17); all.push_back(draw()); mc::step(all.back().size()); flat.insert(flat.end(), all.back().begin(), all.back().end()); for (double x : all.back()) MC_CHECK(x >= l.lo && x <= l.hi, l.name << " gave " << x); if (s % 16 == 0) mc::state(mc::mix(s, (uint64_t)(all.back()[0] * 1e6))); }
        follows(l, flat, l.name); size_t k = all[0].size(); for (size_t i : {size_t(0), size_t(1), k / 2, k - 1}) if (i < k) { std::vector<double> v; for (auto& d : all) v.push_back(d[i]); follows(l, v, l.name + ", draw number " + std::to_string(i)); }
        if (l.hi > l.lo) for (size_t lag : {1, 2, 3, 5, 8, 13}) if (lag < k) independent(l, all, lag, l.name);
    });
}
static void distributions() {
    int S = mc::thorough() ? 20000 : 2000; double inf = INFINITY; typedef RandomEngine R;
    mc::bound("distributions", "the distribution over " + std::to_string(S) + " seeds, 64 draws each, and the independence of draws at six distances: uniform draws of 4 ranges, Xavier and He draws for 6 fan-ins, clipped He draws, rand and randn tensors of 8 shapes");
    auto many = [](std::function<double()> f) { return [f] { std::vector<double> v; for (int i = 0; i < 64; ++i) v.push_back(f()); return v; }; };
    distribution({"getRand", 0, 1, 0}, many([] { return (double)R::getRand(); }), S);
    for (auto r : std::vector<std::pair<float, float>>{{-3.5f, 2.25f}, {1, 1.5f}, {0, 100}, {-2, -1}}) distribution({"getRandRange(" + std::to_string(r.first) + "," + std::to_string(r.second) + ")", r.first, r.second, 0}, many([r] { return (double)R::getRandRange(r.first, r.second); }), S);
    for (float n : {1.0f, 2.0f, 3.0f, 9.0f, 100.0f, 1e4f}) { distribution({"getXavierInit(" + std::to_string(n) + ")", -inf, inf, std::sqrt(1.0 / n)}, many([n] { return (double)R::getXavierInit(n); }), S); distribution({"getHeInit(" + std::to_string(n) + ")", -inf, inf, std::sqrt(2.0 / n)}, many([n] { return (double)R::getHeInit(n); }), S);
        for (auto r : std::vector<std::pair<float, float>>{{-0.5f, 0.75f}, {-100, 100}, {0, 1}, {-1, 0}}) distribution({"getHeRandRange(" + std::to_string(n) + "," + std::to_string(r.first) + "," + std::to_string(r.second) + ")", r.first, r.second, std::sqrt(2.0 / n)}, many([n, r] { return (double)R::getHeRandRange(n, r.first, r.second); }), S); }
    for (auto& d : std::vector<Dims>{{1}, {2}, {16}, {2, 3}, {4, 1, 4}, {2, 2, 2, 2}, {64}, {8, 8}}) {
        distribution({"rand of " + str(d), 0, 1, std::sqrt(2.0 / prod(d))}, [d] { return rd(Tensor<float>::rand(Shape(d))).v; }, S); distribution({"rand of " + str(d) + " (double)", 0, 1, std::sqrt(2.0 / prod(d))}, [d] { return rd(Tensor<double>::rand(Shape(d))).v; }, S);
        for (auto r : std::vector<std::pair<double, double>>{{-1, 1}, {-0.25, 0.5}}) { distribution({"randn of " + str(d), r.first, r.second, std::sqrt(2.0 / prod(d))}, [d, r] { return rd(Tensor<float>::randn(Shape(d), (float)r.first, (float)r.second)).v; }, S); distribution({"randn of " + str(d) + " (double)", r.first, r.second, std::sqrt(2.0 / prod(d))}, [d, r] { return rd(Tensor<double>::randn(Shape(d), r.first, r.second)).v; }, S); }
    }
}
// no stretch of draws is, value for value, an earlier one. Two draws agree with a chance below 2^-20, or below 0.4 where draws are
// clipped to the ends of their range: so 8 draws in a row do by chance once in 2^160 pairs, 80 clipped ones once in 2^105
struct Stretches {
    size_t len; std::unordered_map<uint64_t, uint64_t> seen; uint64_t at = 0;
    Stretches(size_t l) : len(l) {}
    void add(const std::vector<double>& m, const std::string& what) {
        if (m.size() < len) return; const uint64_t B = 0x9E3779B97F4A7C15ull; uint64_t top = 1, h = 0; for (size_t i = 0; i + 1 < len; ++i) top *= B;
        auto val = [&](size_t i) { uint64_t b; memcpy(&b, &m[i], 8); return mc::mix(b, 11); };
        for (size_t i = 0; i < m.size(); ++i) { if (i >= len) h -= val(i - len) * top; h = h * B + val(i); if (i + 1 < len) continue; auto it = seen.emplace(h, at + i).first; MC_CHECK(it->second == at + i, what << ": the " << len << " draws up to number " << at + i << " repeat those up to number " << it->second); }
        at += m.size(); mc::step(m.size());
    }
};
static void repetition() {
    int big = mc::thorough() ? 1 << 22 : 1 << 18; typedef RandomEngine R;
    mc::bound("no repetition", "tensors of up to " + std::to_string(big + 3) + " random values and " + std::to_string(big) + " draws of each kind in a row, then 300 seeds with 500 draws each: all pairs of stretches of 8 draws (80 where draws are clipped) at every distance");
    auto many = [](int n, std::function<double()> f) { std::vector<double> v; v.reserve(n); for (int i = 0; i < n; ++i) v.push_back(f()); return v; };
    std::vector<std::pair<std::string, std::function<double()>>> kinds = {{"getRand", [] { return R::getRand(); }}, {"getRandRange(-3.5,2.25)", [] { return R::getRandRange(-3.5f, 2.25f); }}, {"getXavierInit(3)", [] { return R::getXavierInit(3); }}, {"getHeInit(100)", [] { return R::getHeInit(100); }}, {"getHeRandRange(2,-10,10)", [] { return R::getHeRandRange(2, -10, 10); }}};
    for (auto& k : kinds) mc::run([&] { return "no repetition of " + k.first; }, [&] { Stretches st(8); R::setSeed(123456); st.add(many(big, k.second), k.first); for (unsigned s = 0; s < 300; ++s) { R::setSeed(s < 150 ? s : s * 2654435761u); st.add(many(500, k.second), k.first + ", seed " + std::to_string(s)); } mc::state(mc::mix(st.at, st.seen.size())); });
    std::vector<Dims> ds = {{big + 3}, {512, 300}, {8, 16, 32, 32}, {70001, 2}};
    for (int dbl = 0; dbl < 2; ++dbl) for (int kind = 0; kind < 3; ++kind) mc::run([&] { return std::string("no repetition within ") + (dbl ? "double " : "float ") + (kind ? "randn" : "rand") + (kind == 2 ? " clipped" : ""); }, [&] {
        Stretches st(kind == 1 ? 8 : 80); R::setSeed(3);
        auto go = [&](auto zero) { typedef decltype(zero) T; for (auto& d : ds) { double hi = kind == 1 ? 1 : std::sqrt(2.0 / prod(d)) / 2; RT r = rd(kind ? Tensor<T>::randn(Shape(d), T(kind == 1 ? -1 : -0.001), T(hi)) : Tensor<T>::rand(Shape(d))); if (kind == 1) follows({"large randn", -1, 1, std::sqrt(2.0 / prod(d))}, r.v, "randn of " + str(d)); if (kind == 0) follows({"large rand", 0, 1, std::sqrt(2.0 / prod(d))}, r.v, "rand of " + str(d)); st.add(r.v, (kind ? "randn of " : "rand of ") + str(d)); } };
        if (dbl) go(0.0); else go(0.0f); mc::state(mc::mix(st.at, st.seen.size()));
    });
}
// a seed determines the sequence however long it is and however much was drawn before (beyond 10^6 draws of every kind)
static void longRuns() {
    int n = mc::thorough() ? 3000017 : 240007, reps = 6; typedef RandomEngine R; mc::bound("long sequences", std::to_string(n) + " draws of each kind and random tensors of as many elements, repeated " + std::to_string(reps) + " times after the same seed, with other draws in between");
    std::vector<std::pair<std::string, std::function<double()>>> kinds = {{"getRand", [] { return R::getRand(); }}, {"getRandRange(-3.5,2.25)", [] { return R::getRandRange(-3.5f, 2.25f); }}, {"getXavierInit(3)", [] { return R::getXavierInit(3); }}, {"getHeInit(100)", [] { return R::getHeInit(100); }}, {"getHeRandRange(2,-10,10)", [] { return R::getHeRandRange(2, -10, 10); }}};
    for (auto& k : kinds) mc::run([&] { return "long sequence of " + k.first; }, [&] {
        std::vector<double> first; for (int r = 0; r < reps; ++r) { R::setSeed(4711); for (int i = 0; i < n; ++i) { double v = k.second(); if (r == 0) first.push_back(v); else MC_CHECK(v == first[i], k.first << ": draw number " << i << " after the same seed is " << v << " in round " << r << ", was " << first[i]); } mc::step(n); for (int i = 0; i < 1000 * r + 13; ++i) kinds[(r + i) % kinds.size()].second(); }
        mc::state(mc::mix(n, (uint64_t)(first.back() * 1e6)));
    });
    for (int kind = 0; kind < 4; ++kind) mc::run([&] { return std::string("long random tensors, ") + (kind % 2 ? "randn" : "rand") + (kind < 2 ? " float" : " double"); }, [&] {
        auto go = [&](auto zero) { typedef decltype(zero) T; RT first; for (int r = 0; r < reps; ++r) { R::setSeed(99); R::getRand(); Shape s({n}); RT x = rd(kind % 2 ? Tensor<T>::randn(s, T(-1), T(1)) : Tensor<T>::rand(s)); if (r == 0) first = x; else for (int i = 0; i < n; ++i) MC_CHECK(x.v[i] == first.v[i], "element " << i << " of a random tensor after the same seed is " << x.v[i] << " in round " << r << ", was " << first.v[i]); mc::step(n); } mc::state(hash(first)); };
        if (kind < 2) go(0.0f); else go(0.0);
    });
}
void explore() {
    std::vector<Dims> all; shapes(4, 3, 81, [&](const Dims& d) { all.push_back(d); });
    for (Dims d : std::vector<Dims>{{4}, {5}, {6}, {7}, {8}, {9}, {16}, {17}, {33}, {64}, {65}, {100}, {33, 35}, {5, 7, 2}, {2, 2, 2, 2, 2}}) all.push_back(d);
    for (auto& d : all) { mc::run([&] { return "factories float " + str(d); }, [&] { factories<float>(d); }); mc::run([&] { return "factories double " + str(d); }, [&] { factories<double>(d); }); }
    for (int n : {0, -1, -5}) mc::run([&] { return "factory of size " + std::to_string(n); }, [&] {
        typedef Tensor<float> X;
        MC_CHECK(mc::throws([&] { X::ones(n); }) && mc::throws([&] { X::zeros(n); }) && mc::throws([&] { X::rand(n); }) && mc::throws([&] { X::identity(n); }) && mc::throws([&] { X::randn(n, 0, 1); }), "size " << n << " accepted"); });
    unsigned ns = mc::thorough() ? 4000 : 400;
    mc::bound("range of draws", "300 draws of every kind for each of " + std::to_string(ns) + " seeds");
    for (unsigned s = 0; s < ns; ++s) mc::run([&] { return "range of draws, seed " + std::to_string(s); }, [&] {
        RandomEngine::setSeed(s); double lo = 2, hi = -1;
        for (int k = 0; k < 300; ++k) {
            float r = RandomEngine::getRand(); MC_CHECK(r >= 0 && r <= 1, "getRand gave " << r); lo = std::min(lo, (double)r); hi = std::max(hi, (double)r);
            float q = RandomEngine::getRandRange(-3.5f, 2.25f); MC_CHECK(q >= -3.5f && q <= 2.25f, "getRandRange gave " << q);
            float z = RandomEngine::getRandRange(1.0f, 1.5f); MC_CHECK(z >= 1 && z <= 1.5f, "getRandRange gave " << z);
            float h = RandomEngine::getHeRandRange(2, -0.5f, 0.75f); MC_CHECK(h >= -0.5f && h <= 0.75f, "getHeRandRange gave " << h);
            MC_CHECK(std::isfinite(RandomEngine::getXavierInit(9)) && std::isfinite(RandomEngine::getHeInit(9)), "initial value not finite"); mc::step(6);
        }
        MC_CHECK(lo < 0.2 && hi > 0.8, "300 uniform draws stay within [" << lo << "," << hi << "]");
    });
    sequences();
    distributions();
    repetition();
    longRuns();
}

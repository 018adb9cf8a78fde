// C12: losses equal their definition and their gradient is the derivative.
#include "ref.hpp"
#include "smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp"
#include "smart_dnn/Loss/MSELoss.hpp"
using namespace ref;

template <class T> double tolR() { return std::is_same<T, float>::value ? 3e-6 : 1e-13; }
template <class T> void scalarIs(const Tensor<T>& t, double want, double scale, const std::string& w) {
    RT r = rd(t); MC_CHECK(r.size() == 1 && r.d == Dims{1}, w << ": the loss has shape " << str(r.d));
    MC_CHECK(std::isfinite(r.v[0]), w << ": the loss is " << r.v[0]);
    MC_CHECK(std::fabs(r.v[0] - want) <= tolR<T>() * scale + 1e-30, w << ": the loss is " << r.v[0] << ", expected " << want); mc::step();
}
template <class T> void mse(const RT& p0, const RT& t0, bool accepted = true) {
    smart_dnn::MSELoss<T> L; smart_dnn::Loss<T>& loss = L;
    Tensor<T> p = mk<T>(p0), t = mk<T>(t0); RT rp = rounded<T>(p0), rt = rounded<T>(t0); std::string w = "MSE of " + str(rp) + " and " + str(rt);
    if (!accepted) { MC_CHECK(mc::throws([&] { loss.compute(p, t); }), w << " accepted"); MC_CHECK(mc::throws([&] { loss.gradient(p, t); }), "gradient of " << w << " accepted"); }
    else {
        double n = (double)rp.size(), s = 0, mag = 0; RT g(p0.d);
        for (size_t i = 0; i < rp.size(); ++i) { double d = rp.v[i] - rt.v[i]; s += d * d; mag += (std::fabs(rp.v[i]) + std::fabs(rt.v[i])) * (std::fabs(rp.v[i]) + std::fabs(rt.v[i])); g.v[i] = 2 * d / n; }
        Tensor<T> c = loss.compute(p, t); scalarIs(c, s / n, mag / n * std::max(1.0, n / 64), w);
        MC_CHECK(rd(c).v[0] >= 0, w << " is negative");
        Tensor<T> gr = loss.gradient(p, t); expect(gr, g, "gradient of " + w, Tol{tolR<T>() * 30 / n, tolR<T>()}); mc::state(hash(g)); mc::outcome(hash(rd(c)));
    }
    expectExact(p, rp, "prediction"); expectExact(t, rt, "target");
}
template <class T> void cce(const RT& p0, const RT& t0, bool accepted = true) {
    smart_dnn::CategoricalCrossEntropyLoss<T> L; smart_dnn::Loss<T>& loss = L;
    Tensor<T> p = mk<T>(p0), t = mk<T>(t0); RT rp = rounded<T>(p0), rt = rounded<T>(t0); std::string w = "cross-entropy of " + str(rp) + " and " + str(rt);
    if (!accepted) { MC_CHECK(mc::throws([&] { loss.compute(p, t); }), w << " accepted"); MC_CHECK(mc::throws([&] { loss.gradient(p, t); }), "gradient of " << w << " accepted"); }
    else {
        const double lo = (double)T(1e-7), hi = (double)(T(1.0) - T(1e-7)); double n = p0.d[0], s = 0, mag = 0; RT g(p0.d);
        for (size_t i = 0; i < rp.size(); ++i) { double q = std::min(std::max(rp.v[i], lo), hi); s -= rt.v[i] * std::log(q); mag += std::fabs(rt.v[i] * std::log(q)) + std::fabs(rt.v[i]) * 0.1; g.v[i] = -rt.v[i] / q / n; }
        Tensor<T> c = loss.compute(p, t); scalarIs(c, s / n, mag / n * std::max(1.0, rp.size() / 64.0), w);
        MC_CHECK(rd(c).v[0] >= 0, w << " is negative");
        Tensor<T> gr = loss.gradient(p, t); RT got = rd(gr); MC_CHECK(got.d == p0.d, "gradient of " << w << " has shape " << str(got.d));
        for (size_t i = 0; i < got.size(); ++i) {
            bool clamped = rp.v[i] <= lo || rp.v[i] >= hi; // there the derivative of the clamped loss is 0 on one side
            bool ok = close(got.v[i], g.v[i], Tol{0, 4 * tolR<T>()}) || (clamped && got.v[i] == 0);
            MC_CHECK(ok, "gradient of " << w << ": element " << str(unflat(i, p0.d)) << " is " << got.v[i] << ", expected " << g.v[i]);
        }
        mc::step(); mc::state(hash(g)); mc::outcome(hash(rd(c)));
    }
    expectExact(p, rp, "prediction"); expectExact(t, rt, "target");
}
void explore() {
    bool full = mc::thorough();
    // --- all words ---
    std::vector<double> ma = {0, 1, -2.5, 1e4, -0.125}, pa = {0, 1e-9, 1e-4, 0.25, 0.6, 1, 1.25, -0.5}, ta = {0, 1, 0.3, 2};
    int ml = full ? 4 : 3, cl = full ? 4 : 3;
    mc::bound("mean squared error", "all prediction and target words of length 1.." + std::to_string(ml) + " over {0,1,-2.5,1e4,-0.125}, in every shape of rank 1..4 with that many elements");
    mc::bound("cross-entropy", "all prediction words over {0,1e-9,1e-4,0.25,0.6,1,1.25,-0.5} and target words over {0,1,0.3,2} of length 1.." + std::to_string(cl) + ", in every rank-2 shape with that many elements");
    for (int n = 1; n <= ml; ++n) { std::vector<Dims> sh; shapes(4, n, n, [&](const Dims& d) { if ((int)prod(d) == n) sh.push_back(d); });
        words(n, (int)ma.size(), [&](const std::vector<int>& w) { mc::run([&] { return "MSE predictions " + vstr(w) + " against all targets"; }, [&] {
            std::vector<double> p; for (int i : w) p.push_back(ma[i]); size_t k = 0;
            words(n, (int)ma.size(), [&](const std::vector<int>& u) { std::vector<double> t; for (int i : u) t.push_back(ma[i]); const Dims& d = sh[k++ % sh.size()]; mse<float>(RT(d, p), RT(d, t)); mse<double>(RT(d, p), RT(d, t)); if (k < 8) mse<float>(RT({n, 1}, p), RT({n}, t)); });
        }); }); }
    for (int n = 1; n <= cl; ++n) { std::vector<Dims> sh; shapesOfRank(2, n, n, [&](const Dims& d) { if ((int)prod(d) == n) sh.push_back(d); });
        words(n, (int)pa.size(), [&](const std::vector<int>& w) { mc::run([&] { return "cross-entropy predictions " + vstr(w) + " against all targets"; }, [&] {
            std::vector<double> p; for (int i : w) p.push_back(pa[i]);
            words(n, (int)ta.size(), [&](const std::vector<int>& u) { std::vector<double> t; for (int i : u) t.push_back(ta[i]); for (auto& d : sh) { cce<float>(RT(d, p), RT(d, t)); cce<double>(RT(d, p), RT(d, t)); } });
        }); }); }
    // --- every pair of shapes ---
    std::vector<Dims> all; shapes(4, 2, 16, [&](const Dims& d) { all.push_back(d); });
    for (Dims d : std::vector<Dims>{{3}, {3, 1}, {1, 3}, {3, 2}, {2, 3}, {6}, {6, 1}, {1, 6}, {3, 3}, {3, 1, 1}, {2, 2, 3}, {4}, {4, 1}, {5, 2}}) all.push_back(d);
    mc::bound("shape pairs", "all ordered pairs of " + std::to_string(all.size()) + " shapes of rank 1..4 for both losses");
    for (auto& a : all) mc::run([&] { return "losses of prediction " + str(a) + " with every target shape"; }, [&] {
        for (auto& b : all) {
            bool same = a == b, column = b.size() == 1 && prod(a) == prod(b) && a[0] == b[0];
            MC_TRAIL(str(b));
            mse<float>(pat(a, 4), pat(b, 1), same || column); mse<double>(pat(a, 4), pat(b, 1), same || column);
            RT p = map(pat(a, 0), [](double x) { return x / 40; }), t = map(pat(b, 0, 3), [](double x) { return x / 30; });
            cce<float>(p, t, same && a.size() == 2); cce<double>(p, t, same && a.size() == 2);
        }
    });
    for (Dims d : std::vector<Dims>{{70001, 1}, {1, 70001}, {300, 300}, {4097, 3}, {3, 4097}, {262147, 1}, {1, 262147}, {1000, 1001}, {400009, 2}}) mc::run([&] { return "losses of large " + str(d); }, [&] { RT p = map(pat(d, 0), [](double x) { return std::fmod(x * 5, 19) / 19 + 0.01; }), one(d); for (int i = 0; i < d[0]; ++i) one.v[(size_t)i * d[1] + (i * 5 + 1) % d[1]] = 1; cce<double>(p, one); mse<double>(pat(d, 1), pat(d, 4)); mse<double>(p, one); });
    // --- sizes ---
    std::vector<int> ns = {1, 2, 3, 4, 5, 7, 8, 9, 10, 16, 17, 31, 32, 33, 64, 65, 100, 127, 128, 129, 257, 1000};
    mc::bound("size sweep", "all (batch, width) pairs over 22 sizes up to 1000 with at most 3000 elements");
    for (int b : ns) for (int k : ns) if (b * k <= 3000) mc::run([&] { return "losses of (" + std::to_string(b) + "," + std::to_string(k) + ")"; }, [&] {
        Dims d = {b, k}; RT soft = map(pat(d, 0, 5), [](double x) { return std::fmod(x, 7) / 8; }), one(d); for (int i = 0; i < b; ++i) one.v[(size_t)i * k + (i * 5 + 1) % k] = 1;
        RT p = map(pat(d, 0), [](double x) { return std::fmod(x * 5, 19) / 19 + 0.01; });
        cce<float>(p, one); cce<double>(p, one); cce<float>(p, soft); cce<double>(p, soft); mse<float>(p, soft); mse<double>(pat(d, 1), pat(d, 4)); mse<float>(pat(d, 4), pat(d, 1)); mse<float>(pat({k, b}, 2), pat({k, b}, 1));
    });
    mc::bound("magnitudes", "squared errors of differences and cross-entropy of targets scaled by powers of two from 2^-50 to 2^40");
    for (int n = 1; n <= 4; ++n) for (int b = 1; b <= 3; ++b) mc::run([&] { return "losses of (" + std::to_string(b) + "," + std::to_string(n) + "), magnitudes"; }, [&] { Dims d = {b, n};
        auto go = [&](auto zero) { typedef decltype(zero) T; smart_dnn::MSELoss<T> L; smart_dnn::CategoricalCrossEntropyLoss<T> C;
            RT p = rounded<T>(pat(d, 4, 1)), t = rounded<T>(pat(d, 1, 2)), s = rounded<T>(map(pat(d, 0), [](double x) { return x / 16; })), h = rounded<T>(pat(d, 0, 3)); RT g0, c0; double l0 = 0, e0 = 0;
            for (int k : {0, -50, -30, -24, 20, 40}) { auto sc = [&](const RT& r) { return map(r, [&](double x) { return std::ldexp(x, k); }); };
                RT l = rd(L.compute(mk<T>(sc(p)), mk<T>(sc(t)))), g = rd(L.gradient(mk<T>(sc(p)), mk<T>(sc(t)))), e = rd(C.compute(mk<T>(s), mk<T>(sc(h)))), c = rd(C.gradient(mk<T>(s), mk<T>(sc(h))));
                if (k == 0) { l0 = l.v[0]; g0 = g; e0 = e.v[0]; c0 = c; continue; }
                double R = 10 * tolR<T>(); MC_CHECK(std::fabs(l.v[0] - std::ldexp(l0, 2 * k)) <= R * std::ldexp(l0, 2 * k), "MSE of values 2^" << k << " times as large is " << l.v[0] << " instead of " << std::ldexp(l0, 2 * k)); MC_CHECK(std::fabs(e.v[0] - std::ldexp(e0, k)) <= R * std::ldexp(e0, k), "cross-entropy of targets 2^" << k << " times as large is " << e.v[0] << " instead of " << std::ldexp(e0, k));
                for (size_t i = 0; i < g.size(); ++i) { MC_CHECK(std::fabs(g.v[i] - std::ldexp(g0.v[i], k)) <= R * std::ldexp(std::fabs(g0.v[i]), k), "MSE gradient of values 2^" << k << " times as large: " << g.v[i] << " instead of " << std::ldexp(g0.v[i], k)); MC_CHECK(std::fabs(c.v[i] - std::ldexp(c0.v[i], k)) <= R * std::ldexp(std::fabs(c0.v[i]), k), "cross-entropy gradient of targets 2^" << k << " times as large: " << c.v[i] << " instead of " << std::ldexp(c0.v[i], k)); }
                mc::step(); mc::state(mc::mix(hash(g0), (uint64_t)(k + 100))); } };
        go(0.0f); go(0.0);
    });
}

// C17: dropout keeps each unit with probability 1-p and rescales, in both passes.
#include "layers.hpp"
#include "smart_dnn/RandomEngine.hpp"
#include <map>
#include <unordered_map>
using namespace ref; using namespace smart_dnn;

// one training forward: returns the pattern of kept units and checks every element; then backward
template <class T> std::vector<char> forward(DropoutLayer<T>& layer, const RT& x0, double p) {
    RT x = rounded<T>(x0); Tensor<T> t = mk<T>(x); Layer<T>& l = layer; Tensor<T> y = l.forward(t); RT r = rd(y);
    MC_CHECK(r.d == x.d, "dropout of " << str(x.d) << " has shape " << str(r.d)); expectExact(t, x, "input of dropout");
    std::vector<char> kept(x.size()); double f = 1 / (1 - (double)T(p));
    for (size_t i = 0; i < x.size(); ++i) { bool z = r.v[i] == 0; kept[i] = !z; MC_CHECK(z || close(r.v[i], x.v[i] * f, Tol{0, std::is_same<T, float>::value ? 2e-6 : 1e-13}), "dropout(" << p << ") of " << x.v[i] << " is " << r.v[i] << ", neither 0 nor " << x.v[i] * f); }
    mc::step(); return kept;
}
template <class T> void backward(DropoutLayer<T>& layer, const Dims& d, const std::vector<char>& kept, double p, size_t off = 0) {
    RT u = rounded<T>(pat(d, 1, off)); Tensor<T> t = mk<T>(u); Layer<T>& l = layer; Tensor<T> g = l.backward(t); RT r = rd(g); double f = 1 / (1 - (double)T(p));
    MC_CHECK(r.d == d, "dropout gradient of " << str(d) << " has shape " << str(r.d)); expectExact(t, u, "upstream of dropout");
    for (size_t i = 0; i < u.size(); ++i) { double want = kept[i] ? u.v[i] * f : 0; MC_CHECK(close(r.v[i], want, Tol{0, std::is_same<T, float>::value ? 2e-6 : 1e-13}), "dropout(" << p << ") gradient of position " << i << " (" << (kept[i] ? "kept" : "dropped") << ") is " << r.v[i] << ", expected " << want); }
    mc::step();
}
static void within(double count, double n, double q, const std::string& w) {
    double s = std::sqrt(n * q * (1 - q)) ; MC_CHECK(std::fabs(count - n * q) <= 6.5 * s + 1.5, w << ": " << count << " of " << n << ", expected about " << n * q << " (6.5 sigma: " << 6.5 * s << ")");
}
// Bernstein's bound with a chance of exp(-25), also good for small counts
static void certainly(double count, double n, double q, const std::string& w) { double t = 25 / 3.0 + std::sqrt(625 / 9.0 + 50 * n * q * (1 - q)); MC_CHECK(std::fabs(count - n * q) <= t, w << ": " << count << " of " << n << ", expected " << n * q << " (at most " << t << " away)"); }
// no stretch of units is kept and dropped exactly as an earlier one (nor, for a rate of a half, exactly the other way round):
// the stretches are so long that chance repeats none in 2^40 pairs more than once in 2^24 explorations
struct Stretches {
    size_t len; bool half; std::unordered_map<uint64_t, uint64_t> seen; uint64_t at = 0;
    Stretches(double p) : half(p == 0.5) { double r = p * p + (1 - p) * (1 - p); len = (size_t)std::ceil(64 / -std::log2(r)); }
    void add(const std::vector<char>& m, const std::string& what) {
        if (m.size() < len) return; const uint64_t B = 0x9E3779B97F4A7C15ull; uint64_t top = 1, h[2] = {0, 0}; for (size_t i = 0; i + 1 < len; ++i) top *= B;
        auto val = [&](size_t i, int c) { return (uint64_t)(m[i] ^ c) * 0xD1B54A32D192ED03ull + 0x2545F4914F6CDD1Dull; };
        for (size_t i = 0; i < m.size(); ++i) for (int c = 0; c < (half ? 2 : 1); ++c) {
            if (i >= len) h[c] -= val(i - len, c) * top; h[c] = h[c] * B + val(i, c); if (i + 1 < len) continue;
            uint64_t here = at + i; auto it = c ? seen.find(h[1]) : seen.emplace(h[0], here).first;
            MC_CHECK(it == seen.end() || it->second == here || (c && it->second > here), what << ": the " << len << " units up to number " << here << " of all masks are kept and dropped exactly as " << (c ? "the reverse of " : "") << "those up to number " << it->second);
        }
        at += m.size();
    }
};
static RT ones(const Dims& d, size_t off) { return map(pat(d, 0, off), [](double x) { return std::fmod(x, 13) + 1; }); }
void explore() {
    bool full = mc::thorough(); const int S = full ? 60000 : 4000;
    std::vector<double> ps = {0, 0.1, 0.25, 0.5, 0.75, 0.9};
    std::vector<Dims> sh = {{1}, {2}, {4}, {1, 4}, {4, 1}, {2, 2}, {1, 1, 2, 2}, {2, 3}, {3, 2}, {1, 1}, {8}, {2, 2, 2}, {2, 1, 2, 3}, {16}, {3, 7}, {65}, {129, 2}, {2, 3, 5, 7}};
    mc::bound("seeds", "all seeds 0.." + std::to_string(S - 1) + " for every rate in {0,0.1,0.25,0.5,0.75,0.9} and 18 shapes of rank 1..4 (fewer seeds for larger tensors, the same number of draws)");
    for (double p : ps) for (auto& d : sh) for (int dbl = 0; dbl < 2; ++dbl) mc::run([&] { return std::string(dbl ? "double" : "float") + " dropout " + std::to_string(p) + " on " + str(d) + " over all seeds"; }, [&] {
        size_t n = prod(d); int seeds = std::max<int>(200, S / (dbl ? 4 : 1) / (int)(n > 8 ? n / 3 : 1)); std::vector<double> per(n, 0), pairNext(n, 0), pairCall(n, 0); double total = 0; std::map<unsigned, int> patterns;
        for (int s = 0; s < seeds; ++s) {
            RandomEngine::setSeed(s * 7919u + 13u * (unsigned)n);
            std::vector<char> a, b;
            if (dbl) { DropoutLayer<double> l(p); a = forward(l, ones(d, s % 5), p); backward(l, d, a, p, s); b = forward(l, ones(d, 1), p); backward(l, d, b, p, s + 1); backward(l, d, b, p, s + 2); }
            else { DropoutLayer<float> l((float)p); a = forward(l, ones(d, s % 5), p); backward(l, d, a, p, s); b = forward(l, ones(d, 1), p); backward(l, d, b, p, s + 1); backward(l, d, b, p, s + 2); }
            unsigned code = 0; for (size_t i = 0; i < n; ++i) { total += a[i]; per[i] += a[i]; pairNext[i] += a[i] && a[(i + 1) % n]; pairCall[i] += a[i] && b[i]; if (i < 4) code |= (unsigned)a[i] << i; }
            patterns[code]++; mc::state(mc::mix(code, n * 64 + (unsigned)(p * 20)));
        }
        double q = 1 - p; std::string w = "dropout " + std::to_string(p) + " on " + str(d);
        within(total, (double)seeds * n, q, w + ", units kept");
        for (size_t i = 0; i < n; ++i) { within(per[i], seeds, q, w + ", position " + std::to_string(i) + " kept"); if (n > 1) within(pairNext[i], seeds, n == 2 ? q * q : q * q, w + ", positions " + std::to_string(i) + " and its neighbour both kept"); within(pairCall[i], seeds, q * q, w + ", position " + std::to_string(i) + " kept in two consecutive calls"); }
        // every pattern whose expected count is at least 60 must appear, about as often as expected
        size_t k = std::min<size_t>(n, 4);
        for (unsigned c = 0; c < (1u << k); ++c) { double pr = 1; for (size_t i = 0; i < k; ++i) pr *= c >> i & 1 ? q : p; if (pr * seeds >= 60) { MC_CHECK(patterns.count(c), w << ": the pattern " << c << " of the first " << k << " units never occurs over " << seeds << " seeds"); within(patterns[c], seeds, pr, w + ", pattern " + std::to_string(c)); } if (pr == 0) MC_CHECK(!patterns.count(c), w << ": impossible pattern " << c); }
    });
    // evaluation mode, and histories of modes, shapes, forward and backward
    int depth = full ? 6 : 5;
    mc::bound("histories", "all words of length " + std::to_string(depth) + " over {train, eval, forward (2,3), forward (5), forward (1,2,2,2), backward}, rates 0.5 and 0.25");
    words(depth, 6, [&](const std::vector<int>& w) { mc::run([&] { return "history " + vstr(w); }, [&] {
        static const Dims xs[3] = {{2, 3}, {5}, {1, 2, 2, 2}};
        for (double p : {0.5, 0.25}) {
            RandomEngine::setSeed(5 + w[0]); DropoutLayer<float> l((float)p); Layer<float>& b = l; bool tr = true, haveAny = false, lastTrain = false; Dims last; std::vector<char> kept; size_t o = 0; bool anyTrain = false;
            for (int op : w) {
                if (op < 2) { b.setTrainingMode(tr = op == 0); MC_TRAIL((tr ? "training" : "evaluation")); }
                else if (op < 5) {
                    last = xs[op - 2]; haveAny = true; lastTrain = tr; MC_TRAIL("forward " << str(last));
                    if (tr) { kept = forward(l, ones(last, o++), p); anyTrain = true; }
                    else { RT x = pat(last, 1, o++); Tensor<float> t = mk<float>(x); expectExact(b.forward(t), x, "evaluation forward"); expectExact(t, x, "input"); }
                } else {
                    MC_TRAIL("backward");
                    if (!tr && haveAny) { RT u = pat(last, 1, o++); Tensor<float> t = mk<float>(u); expectExact(b.backward(t), u, "evaluation backward"); }
                    else if (tr && !anyTrain) MC_CHECK(mc::throws([&] { b.backward(mk<float>(pat({2, 3}, 0))); }), "training backward without a training forward is answered");
                    else if (tr && lastTrain) { backward(l, last, kept, p, o++); MC_CHECK(mc::throws([&] { b.backward(mk<float>(pat({3, 3, 3}, 0))); }), "an upstream gradient of another shape is answered"); }
                }
            }
        }
    }); });
    // long histories: the masks of any two training passes of any layers are independent
    int P = full ? 300 : 70;
    mc::bound("independence", "two layers, " + std::to_string(P) + " training passes each, in five patterns of shapes and evaluation passes, with and without backward: every pair of passes up to all distances, 6 rates, 2 sizes, several seeds, float and double");
    for (double p : ps) for (int n : {300, 2000}) for (unsigned seed = 1; seed <= (full ? 6u : 2u); ++seed) for (int pattern = 0; pattern < 5; ++pattern) mc::run([&] { return "independence, dropout " + std::to_string(p) + ", " + std::to_string(n) + " units, pattern " + std::to_string(pattern) + ", seed " + std::to_string(seed); }, [&] {
        auto go = [&](auto zero) { typedef decltype(zero) T; RandomEngine::setSeed(seed * 77 + n); DropoutLayer<T> l1{T(p)}, l2{T(p)}; std::vector<std::vector<char>> ms; double q = 1 - p, pairs = 0, both = 0;
            RT same = ones({1, n}, 3); int passes = n > 1000 ? P / 2 : P;
            for (int k = 0; k < passes; ++k) for (int w = 0; w < 2; ++w) { auto& l = w ? l2 : l1; Dims d = pattern == 1 ? (k % 2 ? Dims{n, 1} : Dims{1, n}) : pattern == 2 ? Dims{2, n / 4, 2} : Dims{1, n}; if (pattern == 3) { l.setTrainingMode(false); ((Layer<T>&)l).forward(mk<T>(same)); l.setTrainingMode(true); } RT x = same; x.d = d; auto m = forward(l, x, p); if (pattern >= 3) backward(l, d, m, p, k); ms.push_back(m); }
            for (size_t i = 0; i < ms.size(); ++i) { double c = 0; for (char k : ms[i]) c += k; certainly(c, n, q, "units kept in pass " + std::to_string(i / 2) + " of layer " + std::to_string(i % 2)); for (size_t j = 0; j < i; ++j) { double b = 0; for (int u = 0; u < n; ++u) b += ms[i][u] && ms[j][u]; pairs += n; both += b; certainly(b, n, q * q, "units kept both in pass " + std::to_string(j / 2) + " of layer " + std::to_string(j % 2) + " and in pass " + std::to_string(i / 2) + " of layer " + std::to_string(i % 2)); } }
            mc::state(mc::mix((uint64_t)both, n)); };
        go(0.0f); if (pattern == 0) go(0.0);
    });
    int big = full ? 1 << 22 : 1 << 18;
    mc::bound("no repetition", "masks of up to " + std::to_string(big + 3) + " units, and of 3 layers over 60 passes, re-seeded four times: all pairs of stretches of units of all masks (64 units for a rate of a half), at every distance; kept fraction of every block of 256 units");
    for (double p : {0.5, 0.25, 0.9}) for (int dbl = 0; dbl < 2; ++dbl) mc::run([&] { return std::string("no repetition, ") + (dbl ? "double" : "float") + " dropout " + std::to_string(p); }, [&] {
        auto go = [&](auto zero) { typedef decltype(zero) T; Stretches st(p); std::vector<Dims> ds = {{big + 3}, {1, 1 << 15}, {8, 16, 32, 32}, {70001, 2}};
            for (unsigned seed : {0u, 1u, 5489u, 4294967295u}) { RandomEngine::setSeed(seed + 77); DropoutLayer<T> a{T(p)}, b{T(p)}, c{T(p)}; DropoutLayer<T>* ls[] = {&a, &b, &c};
                if (seed == 1) for (auto& d : ds) { auto m = forward(a, ones(d, 1), p); if (d[0] != big + 3) backward(a, d, m, p); st.add(m, "mask of " + str(d)); for (size_t i = 0; i + 256 <= m.size(); i += 256) { double k = 0; for (size_t j = 0; j < 256; ++j) k += m[i + j]; certainly(k, 256, 1 - p, "units kept in the block from " + std::to_string(i)); } }
                for (int k = 0; k < 20; ++k) for (auto l : ls) { Dims d = k % 3 ? Dims{1 + k, 300} : Dims{2, 3, 16, 17}; st.add(forward(*l, ones(d, k), p), "mask of " + str(d)); } }
            mc::state(mc::mix(st.at, st.seen.size())); };
        if (dbl) go(0.0); else go(0.0f);
    });
    mc::bound("magnitudes", "gradients and outputs scale with upstream gradients and inputs scaled by powers of two from 2^-90 to 2^50 (double: 2^-700 to 2^300)");
    for (auto& d : sh) for (double p : ps) mc::run([&] { return "magnitudes, dropout " + std::to_string(p) + " on " + str(d); }, [&] {
        auto go = [&](auto zero) { typedef decltype(zero) T; for (int tr = 0; tr < 2; ++tr) {
            auto mkl = [&] { RandomEngine::setSeed(11); auto l = std::make_unique<DropoutLayer<T>>(T(p)); l->setTrainingMode(tr); return l; };
            scaledUpstream<T>("dropout", [&] { auto l = mkl(); l->forward(mk<T>(ones(d, 1))); return l; }, pat(d, 1, 2)); scaledInput<T>("dropout", mkl, pat(d, 1, 3)); } };
        go(0.0f); go(0.0);
    });
}

// C27: synthetic data generators return consistent, complete batches, for every entropy they may be handed.
#include "ref.hpp"
#include "smart_dnn/Datasets/SampleGenerator.hpp"
#include <climits>
#include <random>
#include <set>
// the machine's entropy source is replaced: every generator receives the enumerated value
static unsigned theEntropy = 0; static unsigned drawn = 0;
void std::random_device::_M_init(const std::string&) {}
void std::random_device::_M_fini() {}
std::random_device::result_type std::random_device::_M_getval() { ++drawn; return theEntropy + 0x9e3779b9u * (drawn - 1); }
using namespace ref; using namespace smart_dnn;
typedef std::pair<std::vector<Tensor<float>>, std::vector<Tensor<float>>> Data;
struct Flat { std::vector<double> x, y; };
static Flat judge(const Data& d, int n, int batch, double noise, const std::string& w) { // batch 0: one sample per tensor of shape (1)
    Flat f; size_t nb = batch ? (size_t)((n + (long)batch - 1) / batch) : n; MC_CHECK(d.first.size() == nb && d.second.size() == nb, w << ": " << d.first.size() << " inputs and " << d.second.size() << " targets, expected " << nb);
    for (size_t b = 0; b < nb; ++b) {
        int k = batch ? std::min<long>(batch, n - (long)b * batch) : 1; Dims s = batch ? Dims{k, 1} : Dims{1}; RT x = rd(d.first[b]), y = rd(d.second[b]);
        MC_CHECK(x.d == s && y.d == s, w << ": batch " << b << " has inputs " << str(x.d) << " and targets " << str(y.d) << ", expected " << str(s));
        for (int i = 0; i < k; ++i) { double xv = x.v[i], yv = y.v[i]; MC_CHECK(xv >= 0 && xv <= 100, w << ": input " << xv << " of batch " << b); double r = yv - (2 * xv + 3); MC_CHECK(std::isfinite(yv) && std::fabs(r) <= 7 * std::fabs(noise) + 5e-5, w << ": target " << yv << " for input " << xv << " in batch " << b << " position " << i << ", expected about " << 2 * xv + 3); f.x.push_back(xv); f.y.push_back(yv); }
    }
    mc::step(); mc::state(mc::mix((uint64_t)n * 64 + (uint64_t)batch, f.x.empty() ? 0 : (uint64_t)(f.x[0] * 1e6))); return f;
}
static Data gen(int n, int batch, double noise, unsigned e) { theEntropy = e; drawn = 0; MC_TRAIL("generate " << n << " samples, batch size " << batch << ", noise " << noise << ", entropy " << e); return batch ? generateBatchedLinearDataset(n, batch, (float)noise) : generateLinearDataset(n, (float)noise); }
static void near_(double got, double want, double sigma, const std::string& w) { MC_CHECK(std::fabs(got - want) <= 6.5 * sigma + 1e-5, w << " is " << got << ", expected " << want << " (+- " << 6.5 * sigma << ")"); }
void explore() {
    bool full = mc::thorough(); int N = full ? 80 : 40; std::vector<double> noises = {0, 0.01, 1, 25}; std::vector<unsigned> es = {0, 1, 2, 0xffffffffu, 0x80000000u, 123456789u};
    mc::bound("counts", "all sample counts 0.." + std::to_string(N) + " with all batch sizes 1.." + std::to_string(N + 4) + " and unbatched, noise levels 0, 0.01, 1, 25, six entropies"); mc::bound("large", "counts up to 5000 with batch sizes around divisors, powers of two and INT_MAX");
    for (int n = 0; n <= N; ++n) mc::run([&] { return std::to_string(n) + " samples"; }, [&] { for (int b = 0; b <= N + 4; ++b) for (double z : noises) for (unsigned e : es) judge(gen(n, b, z, e), n, b, z, std::to_string(n) + " samples, batch size " + std::to_string(b) + ", noise " + std::to_string(z)); });
    for (int n : {1, 7, 99, 100, 101, 1000, 1023, 1024, 1025, 5000}) mc::run([&] { return std::to_string(n) + " samples"; }, [&] { for (int b : {0, 1, 2, 3, 7, 10, 32, 64, 99, 100, 101, 128, 500, 999, 1000, 1001, 1024, 4999, 5000, 5001, 1000000, INT_MAX - 1, INT_MAX}) for (double z : {0.0, 1.0}) for (unsigned e : es) judge(gen(n, b, z, e), n, b, z, std::to_string(n) + " samples, batch size " + std::to_string(b)); });
    mc::run([&] { return std::string("default noise"); }, [&] { std::vector<double> r; for (unsigned e = 0; e < 200; ++e) { theEntropy = e; drawn = 0; Flat f = judge(generateLinearDataset(50), 50, 0, 1, "default noise"); for (size_t i = 0; i < f.x.size(); ++i) r.push_back(f.y[i] - 2 * f.x[i] - 3); theEntropy = e; drawn = 0; f = judge(generateBatchedLinearDataset(50, 7), 50, 7, 1, "default noise"); for (size_t i = 0; i < f.x.size(); ++i) r.push_back(f.y[i] - 2 * f.x[i] - 3); } double s = 0; for (double v : r) s += v * v; near_(s / r.size(), 1, std::sqrt(2.0 / (r.size() / 2)), "variance of the default noise"); });
    mc::bound("rejections", "batch sizes 0,-1,-5,INT_MIN"); for (int b : {0, -1, -5, INT_MIN}) mc::run([&] { return "batch size " + std::to_string(b); }, [&] { for (int n : {0, 1, 10}) { theEntropy = 1; drawn = 0; MC_CHECK(mc::throws([&] { generateBatchedLinearDataset(n, b); }), "batch size " << b << " for " << n << " samples is accepted"); } });
    int E = full ? 4000 : 400; mc::bound("distribution", "over all entropies 0.." + std::to_string(E - 1) + " (100 samples each): uniform inputs and Gaussian noise of the requested deviation, independent of each other and from sample to sample, within 6.5 standard errors");
    for (int b : {0, 1, 9, 100}) for (double z : {0.0, 0.05, 0.5, 1.0, 10.0}) mc::run([&] { return "distribution, batch size " + std::to_string(b) + ", noise " + std::to_string(z); }, [&] {
        std::string w = "batch size " + std::to_string(b) + ", noise " + std::to_string(z) + ": "; const int n = 100; double m = (double)n * E; double sx = 0, sxx = 0, sr = 0, srr = 0, sxr = 0, s1 = 0, lag = 0, lagr = 0; std::vector<double> bins(10, 0); double in1 = 0, in2 = 0, pos = 0; std::set<std::vector<double>> sets;
        for (int e = 0; e < E; ++e) { Flat f = judge(gen(n, b, z, (unsigned)e), n, b, z, w); sets.insert(f.x); for (int i = 0; i < n; ++i) { double x = (f.x[i] - 50) / 100, r = f.y[i] - 2 * f.x[i] - 3; if (z > 0) r /= z; sx += x; sxx += x * x; sr += r; srr += r * r; sxr += x * r; bins[std::min(9, (int)(f.x[i] / 10))]++; in1 += std::fabs(r) <= 1; in2 += std::fabs(r) <= 2; pos += r > 0; if (i) { lag += x * (f.x[i - 1] - 50) / 100; lagr += r * ((f.y[i - 1] - 2 * f.x[i - 1] - 3) / (z > 0 ? z : 1)); } } s1++; }
        near_(sx / m, 0, 0.2887 / std::sqrt(m), w + "mean input (centred, scaled)"); near_(sxx / m, 1.0 / 12, 0.0745 / std::sqrt(m), w + "variance of the inputs (scaled)"); near_(lag / m, 0, 0.0834 / std::sqrt(m), w + "correlation of consecutive inputs"); for (int k = 0; k < 10; ++k) near_(bins[k] / m, 0.1, 0.3 / std::sqrt(m), w + "fraction of inputs in decile " + std::to_string(k));
        MC_CHECK(sets.size() == (size_t)E, w << "only " << sets.size() << " different data sets for " << E << " entropies");
        if (z > 0) { double q = std::sqrt(m), f = z < 0.1 ? 5e-4 : 1e-4; near_(sr / m, 0, 1 / q + f / 6, w + "mean noise (scaled)"); near_(srr / m, 1, 1.4143 / q + f, w + "variance of the noise (scaled)"); near_(sxr / m, 0, 0.2887 / q, w + "correlation of input and noise"); near_(lagr / m, 0, 1 / q, w + "correlation of consecutive noise"); near_(in1 / m, 0.68269, 0.4655 / q + f, w + "noise within one deviation"); near_(in2 / m, 0.9545, 0.2084 / q + f, w + "noise within two deviations"); near_(pos / m, 0.5, 0.5 / q, w + "fraction of positive noise"); }
        else MC_CHECK(srr / m < 1e-8, w << "targets deviate from 2x+3 without noise");
    });
}

// C26: the MNIST loader returns exactly the stored data or fails loudly.
#include "ref.hpp"
#include "smart_dnn/Datasets/MNistLoader.hpp"
#include <climits>
using namespace ref; using namespace smart_dnn;
typedef std::string Bytes;
static Bytes be(uint32_t x) { return Bytes{(char)(x >> 24), (char)(x >> 16), (char)(x >> 8), (char)x}; }
struct Pair { int n, r, c; std::vector<unsigned char> px, lb; uint32_t mi = 2051, ml = 2049;
    Pair(int n, int r, int c, int seed) : n(n), r(r), c(c) { for (int i = 0; i < n * r * c; ++i) px.push_back((unsigned char)(i * 7 + seed * 31 + i / 37)); for (int i = 0; i < n; ++i) lb.push_back((unsigned char)((i * 3 + seed) % 10)); }
    Bytes images() const { return be(mi) + be(n) + be(r) + be(c) + Bytes(px.begin(), px.end()); }
    Bytes labels() const { return be(ml) + be(n) + Bytes(lb.begin(), lb.end()); } };
static std::string dir; static std::string P() { return dir + "/images"; } static std::string Q() { return dir + "/labels"; }
static void put(const std::string& p, const Bytes& b) { std::ofstream f(p, std::ios::binary | std::ios::trunc); f.write(b.data(), (std::streamsize)b.size()); if (!f.flush()) { perror("write"); _exit(2); } }
template <class T> using Data = std::pair<std::vector<Tensor<T>>, std::vector<Tensor<T>>>;
template <class T> void judge(const Data<T>& d, const Pair& p, int batch, int use, const std::string& w) {
    size_t nb = (size_t)((use + (long)batch - 1) / batch); MC_CHECK(d.first.size() == nb && d.second.size() == nb, w << ": " << d.first.size() << " image batches and " << d.second.size() << " label batches, expected " << nb);
    for (size_t b = 0; b < nb; ++b) {
        int first = (int)b * batch, k = std::min(batch, use - first); RT im({k, 1, p.r, p.c}), lb({k, 10});
        for (int j = 0; j < k; ++j) { for (int q = 0; q < p.r * p.c; ++q) im.v[(size_t)j * p.r * p.c + q] = p.px[(size_t)(first + j) * p.r * p.c + q] / 255.0; lb.v[(size_t)j * 10 + p.lb[first + j]] = 1; }
        expect(d.first[b], im, w + ": images of batch " + std::to_string(b), Tol{0, std::is_same<T, float>::value ? 2e-7 : 1e-15}); expectExact(d.second[b], lb, w + ": labels of batch " + std::to_string(b)); mc::state(hash(rd(d.first[b])) ^ hash(rd(d.second[b])) * 3);
    }
}
template <class T> void good(const Pair& p, int batch, int samples) {
    std::ostringstream w; w << p.n << " images of " << p.r << "x" << p.c << ", batch size " << batch << ", samples " << samples; MC_TRAIL(w.str());
    MNISTLoader<T> l(P(), Q(), batch, samples); int use = samples == -1 ? p.n : samples; for (int rep = 0; rep < 2; ++rep) judge<T>(l.loadData(), p, batch, use, w.str());
}
static void bad(const std::string& w, int batch = 1, int samples = -1, bool alsoDouble = false) {
    MC_TRAIL(w); bool t = mc::throws([&] { MNISTLoader<float> l(P(), Q(), batch, samples); l.loadData(); }); MC_CHECK(t, w << " (batch size " << batch << ", samples " << samples << ") is not reported"); mc::step();
    if (alsoDouble) MC_CHECK(mc::throws([&] { MNISTLoader<double> l(P(), Q(), batch, samples); l.loadData(); }), w << " is not reported (double)");
}
// must not crash, and if it returns, the data must be the stored ones
static void badOrExact(const std::string& w, const Pair& p, int batch, int samples, int use) { MC_TRAIL(w); Data<float> d; if (!mc::throws([&] { MNISTLoader<float> l(P(), Q(), batch, samples); d = l.loadData(); })) judge<float>(d, p, batch, use, w); mc::step(); }
void explore() {
    char t[] = "mnistXXXXXX"; if (!mkdtemp(t)) { perror("mkdtemp"); _exit(2); } dir = t; bool full = mc::thorough();
    int N = full ? 7 : 5; std::vector<std::pair<int, int>> ext = {{1, 1}, {1, 3}, {3, 1}, {2, 2}, {2, 3}, {3, 2}, {28, 28}, {5, 7}}; if (full) ext.insert(ext.end(), {{1, 257}, {16, 17}, {28, 27}, {64, 64}});
    mc::bound("well-formed pairs", "0.." + std::to_string(N) + " images of " + std::to_string(ext.size()) + " extents, all batch sizes 1.." + std::to_string(N + 2) + " and a huge one, all sample counts -1..n, float and double, loaded twice");
    for (auto& e : ext) for (int n = 0; n <= N; ++n) for (int s = 0; s < 2; ++s) mc::run([&] { return std::to_string(n) + " images of " + std::to_string(e.first) + "x" + std::to_string(e.second); }, [&] { Pair p(n, e.first, e.second, s * 5 + n); put(P(), p.images()); put(Q(), p.labels()); for (int k = -1; k <= n; ++k) { for (int b = 1; b <= N + 2; ++b) { good<float>(p, b, k); if (s) good<double>(p, b, k); } good<float>(p, 1000000, k); good<float>(p, INT_MAX, k); } });
    mc::bound("many and large images", "127 to 70000 images of 1x1 around powers of two, 300 of 28x28, extents up to 1x70000, batch sizes around powers of two and divisors, sample counts at and around batch boundaries");
    for (int n : {127, 128, 129, 255, 256, 257, 300, 1000, 32768, 65535, 65536, 65537, 70000}) mc::run([&] { return std::to_string(n) + " images of 1x1"; }, [&] { Pair p(n, 1, 1, n); put(P(), p.images()); put(Q(), p.labels()); for (int b : n > 1000 ? std::vector<int>{1000, 256, n} : std::vector<int>{1, 64, 100, 128, 255, 256, 257, n - 1, n, n + 1}) { good<float>(p, b, -1); if (n <= 1000) good<double>(p, b, -1); for (int k : {0, 1, 2, 127, 128, 129, 255, 256, 257, n - 1, n}) if (k <= n && (n <= 1000 || (b == 256 && (k == 257 || k == n - 1)))) good<float>(p, b, k); } });
    for (auto& e : std::vector<std::pair<int, int>>{{1, 255}, {1, 256}, {256, 1}, {257, 1}, {16, 16}, {128, 129}, {255, 3}, {3, 300}, {1, 70000}, {66000, 1}, {32, 32}}) mc::run([&] { return "images of " + std::to_string(e.first) + "x" + std::to_string(e.second); }, [&] { for (int n : {1, 3}) { Pair p(n, e.first, e.second, n); put(P(), p.images()); put(Q(), p.labels()); for (int b : {1, 2, 3}) { good<float>(p, b, -1); good<double>(p, b, n - 1); } } });
    mc::run([&] { return std::string("300 images of 28x28"); }, [&] { Pair p(300, 28, 28, 9); put(P(), p.images()); put(Q(), p.labels()); for (int b : {1, 64, 128, 300}) for (int k : {-1, 129}) good<float>(p, b, k); });
    mc::bound("values", "every pixel value in every position of a 4x4 image, every label in every position of four");
    for (int v = 0; v < 256; ++v) mc::run([&] { return "pixel value " + std::to_string(v); }, [&] { for (int pos = 0; pos < 32; ++pos) { Pair p(2, 4, 4, 1); p.px[pos] = (unsigned char)v; put(P(), p.images()); put(Q(), p.labels()); good<float>(p, 2, -1); if (pos % 8 == 0) good<double>(p, 1, -1); } });
    for (int v = 0; v < 256; ++v) mc::run([&] { return "label " + std::to_string(v); }, [&] { for (int pos = 0; pos < 4; ++pos) { Pair p(4, 2, 2, 1); put(P(), p.images()); p.lb[pos] = (unsigned char)v; put(Q(), p.labels()); for (int b = 1; b <= 5; ++b) { if (v < 10) { good<float>(p, b, -1); for (int k = 0; k <= 4; ++k) good<float>(p, b, k); } else { bad("label " + std::to_string(v) + " in place " + std::to_string(pos), b, -1, true); bad("label " + std::to_string(v) + " in place " + std::to_string(pos), b, pos + 1); } } } });
    mc::run([&] { return std::string("default arguments"); }, [&] { Pair p(3, 2, 2, 1); put(P(), p.images()); put(Q(), p.labels()); judge<float>(MNISTLoader<float>(P(), Q()).loadData(), p, 1, 3, "defaults"); judge<float>(MNISTLoader<float>(P(), Q(), 2).loadData(), p, 2, 3, "batch size 2"); });
    // ---- faults ----
    mc::bound("truncations", "every length of the image file and of the label file of pairs of 1..3 images of 1x1, 2x3 and 3x3, every batch size 1..4, and every pair of lengths for the smallest");
    for (auto& e : std::vector<std::pair<int, int>>{{1, 1}, {2, 3}, {3, 3}}) for (int n = 1; n <= 3; ++n) for (int which = 0; which < 2; ++which) mc::run([&] { return std::string("truncated ") + (which ? "labels of " : "images of ") + std::to_string(n) + " images " + std::to_string(e.first) + "x" + std::to_string(e.second); }, [&] {
        Pair p(n, e.first, e.second, 3); Bytes a = p.images(), b = p.labels(); Bytes& x = which ? b : a;
        for (size_t len = 0; len < x.size(); ++len) { put(P(), which ? a : a.substr(0, len)); put(Q(), which ? b.substr(0, len) : b); std::string w = std::string(which ? "label" : "image") + " file of " + std::to_string(x.size()) + " bytes cut to " + std::to_string(len);
            for (int bs = 1; bs <= 4; ++bs) { bad(w, bs, -1, bs == 2); for (int k = 1; k <= n; ++k) { size_t need = which ? 8 + k : 16 + (size_t)k * e.first * e.second; if (len < need) bad(w, bs, k); else badOrExact(w, p, bs, k, k); } } }
        put(P(), a); put(Q(), b); good<float>(p, 2, -1);
    });
    mc::run([&] { return std::string("both files truncated"); }, [&] { Pair p(1, 1, 2, 3); Bytes a = p.images(), b = p.labels(); for (size_t i = 0; i <= a.size(); ++i) for (size_t j = 0; j <= b.size(); ++j) if (i < a.size() || j < b.size()) { put(P(), a.substr(0, i)); put(Q(), b.substr(0, j)); bad("files cut to " + std::to_string(i) + " and " + std::to_string(j)); } });
    mc::bound("headers", "every single-bit change of every magic number, and 14 values in every header field, for several pairs");
    for (int which = 0; which < 2; ++which) for (int bit = 0; bit < 32; ++bit) mc::run([&] { return "magic number bit " + std::to_string(bit); }, [&] { Pair p(2, 2, 2, 1); (which ? p.ml : p.mi) ^= 1u << bit; put(P(), p.images()); put(Q(), p.labels()); bad("magic number " + std::to_string(which ? p.ml : p.mi), 1, -1, true); bad("magic number", 3, 1); bad("magic number", 1, 2); });
    for (uint32_t v : {0u, 1u, 2u, 3u, 4u, 5u, 255u, 256u, 65536u, 16777216u, 0x40000000u, 0x7fffffffu, 0x80000000u, 0xffffffffu}) for (int field = 0; field < 4; ++field) mc::run([&] { return "header field " + std::to_string(field) + " set to " + std::to_string(v); }, [&] {
        for (int n : {1, 3}) for (int bs : {1, 2, 1000000, INT_MAX}) { Pair p(n, 2, 3, 4); Bytes a = p.images(), b = p.labels(); std::string w = std::to_string(n) + " images of 2x3: "; uint32_t was;
            if (field == 0) { was = n; a.replace(4, 4, be(v)); w += "image count "; } else if (field == 1) { was = 2; a.replace(8, 4, be(v)); w += "row count "; } else if (field == 2) { was = 3; a.replace(12, 4, be(v)); w += "column count "; } else { was = n; b.replace(4, 4, be(v)); w += "label count "; }
            w += std::to_string(v); if (v == was) continue; put(P(), a); put(Q(), b);
            if (field == 0 || field == 3) { bad(w, bs); for (int k = 1; k <= 3; ++k) if (k > n || (v < (uint32_t)k && (int)v >= 0)) bad(w, bs, k); else badOrExact(w, p, bs, k, k); } // the two counts differ
            else if (v > was || v == 0) bad(w, bs);                                                            // not that many pixels
        }
    });
    mc::run([&] { return std::string("large extents"); }, [&] { for (uint32_t r : {0x7fffffffu, 0xffffffffu, 0x10000u, 0x8000u, 46341u, 0x80000000u}) for (uint32_t c : {0x7fffffffu, 0xffffffffu, 0x10000u, 0x8000u, 46341u, 0x80000000u}) for (uint32_t n : {1u, 2u, 0x7fffffffu, 0x80000000u}) { Pair p(1, 1, 1, 1); put(P(), be(2051) + be(n) + be(r) + be(c) + Bytes(5, 'x')); put(Q(), be(2049) + be(n) + Bytes(5, 1)); for (int bs : {1, 2, INT_MAX}) { bad("header " + std::to_string(n) + " x " + std::to_string(r) + " x " + std::to_string(c), bs); bad("header", bs, 1); } } });
    mc::bound("arguments", "batch sizes 0,-1,-2,-1000,INT_MIN; sample counts n+1..n+3, 1000, INT_MAX, and negative ones other than -1");
    for (int n = 1; n <= 4; ++n) mc::run([&] { return "arguments with " + std::to_string(n) + " images"; }, [&] { Pair p(n, 2, 2, 2); put(P(), p.images()); put(Q(), p.labels()); for (int bs : {0, -1, -2, -1000, INT_MIN}) for (int k : {-1, 1, n}) bad("batch size " + std::to_string(bs), bs, k, true); for (int k : {n + 1, n + 2, n + 3, 1000, INT_MAX, -2, -3, -n - 1, -1000, INT_MIN}) for (int bs : {1, 2, 3, 100, INT_MAX}) bad("request of " + std::to_string(k) + " samples from " + std::to_string(n), bs, k, true); good<float>(p, 2, -1); });
    mc::bound("mismatched pairs", "all pairs of counts 0..4, missing files, directories, empty files, swapped files");
    for (int n = 0; n <= 4; ++n) for (int m = 0; m <= 4; ++m) if (n != m) mc::run([&] { return std::to_string(n) + " images and " + std::to_string(m) + " labels"; }, [&] { Pair p(n, 2, 2, 1), q(m, 2, 2, 1); put(P(), p.images()); put(Q(), q.labels()); for (int bs = 1; bs <= 3; ++bs) { bad(std::to_string(n) + " images with " + std::to_string(m) + " labels", bs, -1, true); for (int k = std::min(n, m) + 1; k <= 5; ++k) bad("request of " + std::to_string(k), bs, k); } });
    mc::run([&] { return std::string("missing and foreign files"); }, [&] {
        Pair p(2, 2, 2, 1); auto both = [&] { put(P(), p.images()); put(Q(), p.labels()); }; both(); unlink(P().c_str()); bad("missing images"); both(); unlink(Q().c_str()); bad("missing labels"); unlink(P().c_str()); bad("both missing");
        both(); put(P(), p.labels()); put(Q(), p.images()); bad("swapped files"); both(); put(P(), p.labels()); bad("labels as images"); both(); put(Q(), p.images()); bad("images as labels"); both(); put(P(), ""); bad("empty images"); both(); put(Q(), ""); bad("empty labels");
        both(); MC_CHECK(mc::throws([&] { MNISTLoader<float> l(dir, Q()); l.loadData(); }), "a directory as image file is not reported"); MC_CHECK(mc::throws([&] { MNISTLoader<float> l(P(), dir); l.loadData(); }), "a directory as label file is not reported"); MC_CHECK(mc::throws([&] { MNISTLoader<float> l("", ""); l.loadData(); }), "empty paths are not reported");
        MNISTLoader<float> l(P(), Q(), 2); judge<float>(l.loadData(), p, 2, 2, "intact"); put(Q(), p.labels().substr(0, 9)); MC_CHECK(mc::throws([&] { l.loadData(); }), "a file cut between two loads is not reported"); put(Q(), p.labels()); judge<float>(l.loadData(), p, 2, 2, "repaired");
    });
    unlink(P().c_str()); unlink(Q().c_str()); rmdir(dir.c_str());
}

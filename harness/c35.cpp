// C35: texts show exactly the contents, and producing them changes nothing.
#include "ref.hpp"
#include "smart_dnn/Datasets/MNistLoader.hpp"
#include "smart_dnn/Tensor/BroadcastView.hpp"
#include "smart_dnn/Tensor/SliceView.hpp"
#include <typeinfo>
using namespace ref; using namespace smart_dnn;
static std::string num(float v) { char b[64]; snprintf(b, sizeof b, "%g", (double)v); return b; }
static std::string num(double v) { char b[64]; snprintf(b, sizeof b, "%g", v); return b; }
static std::string num(int v) { return std::to_string(v); }
template <class T> std::string list(const std::vector<T>& v, size_t max) { std::string s = "["; for (size_t i = 0; i < v.size() && i < max; ++i) s += (i ? ", " : "") + num(v[i]); return s + (v.size() > max ? ", ...]" : "]"); }
static std::string dims(const Dims& d) { std::string s = "("; for (size_t i = 0; i < d.size(); ++i) s += (i ? ", " : "") + std::to_string(d[i]); return s + ")"; }
template <class T> void texts(const Dims& d, const std::vector<T>& v) {
    Tensor<T> t(Shape(d), v); const Tensor<T>& c = t; std::string all = list(v, v.size()), head = "TensorData<" + std::string(typeid(T).name()) + ", CPUDevice>:\nShape: " + dims(d) + "\nData: " + list(v, 10);
    for (int k = 0; k < 2; ++k) {
        std::string a = c.toDataString(), b = c.getData().toDataString(), e = c.toDetailedString(), f = c.getData().toString(), g = c.getShape().toString();
        MC_CHECK(a == all, "toDataString of " << dims(d) << " gives " << a << ", expected " << all); MC_CHECK(b == all, "toDataString of the data of " << dims(d) << " gives " << b << ", expected " << all);
        MC_CHECK(f == head, "toString of the data of " << dims(d) << " gives " << f << ", expected " << head); MC_CHECK(e == "Tensor:\n" + head + "\n", "toDetailedString of " << dims(d) << " gives " << e << ", expected Tensor: and " << head);
        MC_CHECK(g == dims(d), "the shape " << dims(d) << " is printed as " << g); std::ostringstream o; o << c.getShape() << c.getShape(); MC_CHECK(o.str() == g + g, "streaming the shape gives " << o.str());
        for (size_t i = 0; i < v.size(); ++i) MC_CHECK(!memcmp(&c.getData().data()[i], &v[i], sizeof(T)), "printing changes element " << i); MC_CHECK(c.getShape().getDimensions() == d, "printing changes the shape");
        mc::state(std::hash<std::string>()(e)); mc::step(6);
    }
}
template <class T> T from(uint32_t bits) { uint32_t x = bits; float f; memcpy(&f, &x, 4); return (T)f; }
static void allShapes(int rank, int maxd, const std::function<void(const Dims&)>& f) { Dims d(rank, 1); for (;;) { f(d); int i = 0; while (i < rank && ++d[i] > maxd) d[i++] = 1; if (i == rank) return; } }
template <class T> Tensor<T> image(const Dims& d, const std::function<double(size_t)>& f) { std::vector<T> v(prod(d)); for (size_t i = 0; i < v.size(); ++i) v[i] = (T)f(i); return Tensor<T>(Shape(d), v); }
template <class T> void art(const Tensor<T>& t, const std::string& w) {
    static const char* levels = " .:-=+*#%@"; MNISTLoader<T> l("none", "none"); Dims d = t.getShape().getDimensions(); std::vector<T> keep(t.getData().data(), t.getData().data() + prod(d)); std::string want;
    for (int i = 0; i < 28; ++i) { for (int j = 0; j < 28; ++j) { T v = keep[(size_t)i * d[d.size() - 1] + j]; int k = 0; float f = (float)v; while (k < 9 && f * 10 >= (float)(k + 1)) ++k; want += levels[k]; } want += '\n'; }
    for (int k = 0; k < 2; ++k) { std::string a = l.toAsciiArt(t); MC_CHECK(a == want, w << ": the picture is\n" << a << "expected\n" << want); } MC_CHECK(!memcmp(keep.data(), t.getData().data(), keep.size() * sizeof(T)), "drawing changes the image"); mc::step(2); mc::state(std::hash<std::string>()(want));
}
template <class T> void pictures(const std::string& ty) {
    bool full = mc::thorough();
    mc::run([&] { return "pictures, stored pixel values " + ty; }, [&] { for (int s = 0; s < 256; ++s) art<T>(image<T>({1, 28, 28}, [&](size_t i) { return ((i + s) % 256) / 255.0; }), "pixel values " + std::to_string(s)); });
    std::vector<Dims> ds = {{28, 28}, {1, 28, 28}, {3, 28, 28}, {1, 1, 28, 28}, {2, 1, 28, 28}, {3, 2, 28, 28}, {2, 1, 1, 28, 28}, {30, 28}, {28, 31}, {2, 33, 29}};
    for (auto& d : ds) mc::run([&] { return "pictures of tensors " + str(d) + ty; }, [&] { for (int s = 0; s < 7; ++s) art<T>(image<T>(d, [&](size_t i) { return ((i * (2 * s + 1) + i / 28 * 3 + s) % 23) / 22.0; }), str(d)); });
    mc::run([&] { return "pictures with each single pixel set" + ty; }, [&] { for (size_t p = 0; p < 784; p += full ? 1 : 3) art<T>(image<T>({28, 28}, [&](size_t i) { return i == p ? 0.55 : 0; }), "pixel " + std::to_string(p)); });
    for (uint32_t hi = 0; hi < 0x10000; hi += 784 * 8) mc::run([&] { return "pictures, value patterns from " + std::to_string(hi) + ty; }, [&] { for (uint32_t q = hi; q < hi + 784 * 8; q += 784) art<T>(image<T>({28, 28}, [&](size_t i) { uint32_t x = std::min<uint32_t>(q + (uint32_t)i, 0xffff) << 16; double v = from<double>(x); return v == v ? v : 0.0; }), "values with bit patterns from " + std::to_string(q)); });
    for (Dims d : std::vector<Dims>{{784}, {1}, {27, 28}, {28, 27}, {1, 27, 28}, {28, 28, 1}, {2, 14, 28}}) mc::run([&] { return "no picture of " + str(d) + ty; }, [&] { MNISTLoader<T> l("a", "b"); Tensor<T> t(Shape(d), T(0.5)); MC_CHECK(mc::throws([&] { l.toAsciiArt(t); }), "an image of " << str(d) << " is drawn"); mc::step(); });
}
template <class T> void types(const std::string& ty) {
    bool full = mc::thorough(); int R = full ? 5 : 4, D = full ? 4 : 3;
    mc::bound("texts of shapes", "rank 1.." + std::to_string(R) + ", dimensions 1.." + std::to_string(D) + ", and all vectors of 1..25 elements");
    for (int r = 1; r <= R; ++r) mc::run([&] { return "texts of tensors of rank " + std::to_string(r) + ty; }, [&] { allShapes(r, D, [&](const Dims& d) { std::vector<T> v(prod(d)); for (size_t i = 0; i < v.size(); ++i) v[i] = (T)((int)i % 2 ? -1 : 1) * (T)(i + 1); texts<T>(d, v); }); });
    mc::run([&] { return "texts of vectors" + ty; }, [&] { for (int n = 1; n <= 25; ++n) { std::vector<T> v(n); for (int i = 0; i < n; ++i) v[i] = (T)(i * 7 - 30) / (T)2; texts<T>({n}, v); } });
    mc::run([&] { return "texts of long vectors" + ty; }, [&] { for (int n : {99, 100, 101, 255, 256, 257, 1000, 1001, 4097, 10001, 70001}) { std::vector<T> v(n); for (int i = 0; i < n; ++i) v[i] = (T)i; texts<T>({n}, v); texts<T>({1, n}, v); } });
    for (int n : full ? std::vector<int>{99991, 200003, 1100017, 5000011} : std::vector<int>{99991, 131101, 200003, 1100017}) mc::run([&] { return "texts of " + std::to_string(n) + " elements" + ty; }, [&] { std::vector<T> v(n); for (int i = 0; i < n; ++i) v[i] = (T)(i % 7919) - (T)13.5; texts<T>({n}, v); v.resize(n / 2 * 2); texts<T>({2, n / 2}, v); });
}
template <class T> void values(const std::string& ty) {
    int low = mc::thorough() ? 16 : 2; mc::bound("texts of values", "every upper half of a float with " + std::to_string(low) + " lower halves");
    for (uint32_t hi = 0; hi < 0x10000; hi += 0x400) mc::run([&] { return "texts of values from " + std::to_string(hi) + ty; }, [&] { for (int l = 0; l < low; ++l) for (uint32_t q = hi; q < hi + 0x400; q += 16) { std::vector<T> v; for (uint32_t k = 0; k < 16; ++k) v.push_back(from<T>((q + k) << 16 | (uint32_t)(l * 0x5a5b & 0xffff))); texts<T>({4, 4}, v); } });
}
static void views() {
    int D = 3; for (int r = 1; r <= 3; ++r) mc::run([&] { return "texts of views of rank " + std::to_string(r); }, [&] { allShapes(r, D, [&](const Dims& d) {
        Tensor<float> t(Shape(d), 1.f); Dims w = d; w.insert(w.begin(), 2); BroadcastView<float, CPUDevice> b(t.getData(), Shape(w)); std::string want = "BroadcastView of shape " + dims(w) + " from original shape " + dims(d); MC_CHECK(b.toString() == want, "a view is printed as " << b.toString() << ", expected " << want);
        for (int k = 0; k < d[0]; ++k) { std::vector<std::pair<int, int>> sl; Dims st(r, 1), o = d; for (int x : d) sl.push_back({0, x}); sl[0].first = k; o[0] -= k; SliceView<float> s(t.getData(), sl, st); want = "SliceView of shape " + dims(o) + " from original shape " + dims(d); MC_CHECK(s.toString() == want, "a slice is printed as " << s.toString() << ", expected " << want); }
        mc::step(2); }); });
}
void explore() {
    types<float>(" (float)"); types<double>(" (double)"); values<float>(" (float)"); values<double>(" (double)"); views();
    mc::bound("pictures", "ten shapes, the stored pixel values in all rotations, each single pixel, every upper half of a float as pixel value, and images too small");
    pictures<float>(" (float)"); pictures<double>(" (double)");
}

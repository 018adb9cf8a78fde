// C06: slices and slice views address exactly the selected elements.
#include "ref.hpp"
#include "big.hpp"
#include <climits>
using namespace ref;
using smart_dnn::SliceView;
struct Sl { int s, e, st; };

static std::vector<int> select(int d, Sl x) { // the indices selected in one dimension
    int s = x.s < 0 ? x.s + d : x.s, e = x.e < 0 ? x.e + d : x.e;
    s = std::min(std::max(s, 0), d); e = std::min(std::max(e, 0), d);
    std::vector<int> r; for (int i = s; i < e; i += x.st) r.push_back(i);
    return r;
}
static std::string str(const std::vector<Sl>& v) { std::string s; for (auto& x : v) s += "[" + std::to_string(x.s) + ":" + std::to_string(x.e) + ":" + std::to_string(x.st) + "]"; return s; }

template <class T> static void one(const Dims& d, const std::vector<Sl>& sl, bool writes) {
    RT base = rounded<T>(pat(d, 0)); Tensor<T> t = mk<T>(base);
    const TensorData<T, CPUDevice>& data = t.getData();
    std::vector<std::pair<int, int>> se; std::vector<int> st; std::vector<std::vector<int>> sel; bool ok = true;
    for (size_t k = 0; k < sl.size(); ++k) { se.push_back({sl[k].s, sl[k].e}); st.push_back(sl[k].st); if (sl[k].st <= 0) ok = false; else sel.push_back(select(d[k], sl[k])); if (ok && sel.back().empty()) ok = false; }
    if (!ok) { MC_CHECK(mc::throws([&] { SliceView<T> v(data, se, st); }), "slice " << str(sl) << " of " << ref::str(d) << " accepted"); mc::step(); return; }
    SliceView<T> v(data, se, st);
    Dims want; for (auto& x : sel) want.push_back((int)x.size());
    MC_CHECK(v.shape().getDimensions() == want && v.shape().size() == prod(want), "slice " << str(sl) << " of " << ref::str(d) << " has shape " << ref::str(v.shape().getDimensions()) << ", expected " << ref::str(want));
    auto it = v.begin(), e = v.end(); uint64_t h = 11; size_t n = prod(want);
    for (size_t f = 0; f < n; ++f) {
        Dims i = unflat(f, want), src; for (size_t k = 0; k < i.size(); ++k) src.push_back(sel[k][i[k]]);
        double x = base.at(src);
        MC_CHECK((double)v[i] == x, "slice " << str(sl) << " of " << ref::str(d) << " at " << ref::str(i) << " is " << v[i] << ", expected " << x);
        MC_CHECK(it != e && (double)*it == x && it.getCurrentIndices() == i, "iteration of slice " << str(sl) << " of " << ref::str(d) << " is wrong at position " << f);
        ++it; h = mc::mix(h, (uint64_t)x); mc::step();
    }
    MC_CHECK(it == e && !(it != e), "iteration of slice " << str(sl) << " of " << ref::str(d) << " does not end");
    MC_CHECK(mc::throws([&] { volatile T x = *it; (void)x; }), "the end iterator could be read");
    mc::state(h);
    if (writes) {
        RT m = base;
        for (size_t f = 0; f < n; ++f) {
            Dims i = unflat(f, want), src; for (size_t k = 0; k < i.size(); ++k) src.push_back(sel[k][i[k]]);
            v.set(i, T(-(int)f - 1)); m.at(src) = -(double)f - 1;
            if (f < 12 || f + 1 == n) { expectExact(t, m, "tensor after writing element " + ref::str(i) + " of slice " + str(sl)); MC_CHECK((double)v[i] == m.at(src), "a written element reads back as " << v[i]); }
        }
        // and the view follows writes to the tensor
        t.getData().data()[m.size() - 1] = T(500); m.v[m.size() - 1] = 500;
        for (size_t f = 0; f < n; ++f) { Dims i = unflat(f, want), src; for (size_t k = 0; k < i.size(); ++k) src.push_back(sel[k][i[k]]); MC_CHECK((double)v[i] == m.at(src), "view does not follow its tensor"); }
    }
}
template <class T> static void tensorSlice(const Dims& d) {
    RT base = rounded<T>(pat(d, 0)); Tensor<T> t = mk<T>(base);
    for (int dim = -2; dim <= (int)d.size() + 1; ++dim) {
        int ext = dim >= 0 && dim < (int)d.size() ? d[dim] : 2;
        for (int ix = -2; ix <= ext + 1; ++ix) {
            if (dim < 0 || dim >= (int)d.size() || ix < 0 || ix >= ext) { MC_CHECK(mc::throws([&] { t.slice(dim, ix); }), "slice(" << dim << "," << ix << ") of " << ref::str(d) << " accepted"); continue; }
            Dims o; for (size_t k = 0; k < d.size(); ++k) if ((int)k != dim) o.push_back(d[k]);
            RT want(o.empty() ? Dims{1} : o); size_t f = 0;
            for (size_t k = 0; k < base.size(); ++k) if (unflat(k, d)[dim] == ix) want.v[f++] = base.v[k];
            std::string what = "slice(" + std::to_string(dim) + "," + std::to_string(ix) + ") of " + ref::str(d);
            Tensor<T> s = t.slice(dim, ix); expectExact(s, want, what); seen(s);
            s[0] = T(-99); s *= T(2); expectExact(t, base, "source after writing " + what);
            Tensor<T> s2 = t.slice(dim, ix); Tensor<T> t2(t); t2.getData().fill(T(1)); { Tensor<T> t3(t); Tensor<T> s3 = t3.slice(dim, ix); t3.getData().fill(T(7)); expectExact(s3, want, what + " after its source changed"); }
            expectExact(s2, want, what + " again");
            { std::unique_ptr<Tensor<T>> src(new Tensor<T>(t)); Tensor<T> s4 = src->slice(dim, ix); src.reset(); expectExact(s4, want, what + " after its source was destroyed"); }
        }
    }
    expectExact(t, base, "source of slices");
}
// all slices of slices of slices
static void chains(const Dims& d) {
    std::function<void(const Tensor<float>&, const RT&, int)> go = [&](const Tensor<float>& t, const RT& m, int depth) {
        expectExact(t, m, "chained slice"); if (depth == 0) return;
        for (int dim = 0; dim < (int)m.d.size(); ++dim) for (int ix = 0; ix < m.d[dim]; ++ix) {
            Dims o; for (size_t k = 0; k < m.d.size(); ++k) if ((int)k != dim) o.push_back(m.d[k]);
            RT want(o.empty() ? Dims{1} : o); size_t f = 0; for (size_t k = 0; k < m.size(); ++k) if (unflat(k, m.d)[dim] == ix) want.v[f++] = m.v[k];
            go(t.slice(dim, ix), want, depth - 1);
        }
    };
    RT b = rounded<float>(pat(d, 0)); go(mk<float>(b), b, 3);
}
// more elements than 32 bits can count
static void huge(const Dims& d) {
    big::Big b(d); if (!b.t) return;
    for (int kind = 0; kind < 5; ++kind) {
        std::vector<std::pair<int, int>> se; std::vector<int> st, start; Dims want;
        for (int x : d) { int s = 0, e = x, p = 1; if (kind == 1) { s = x / 2; } if (kind == 2) { p = 3; } if (kind == 3) { s = -2; e = x; if (x == 1) s = 0; } if (kind == 4) { s = x > 1; p = 2; e = INT_MAX; } int ss = s < 0 ? s + x : s, ee = std::min(e, x); se.push_back({s, e}); st.push_back(p); start.push_back(ss); want.push_back((ee - ss - 1) / p + 1); }
        SliceView<big::C> v(*b.t, se, st); int k = 0;
        MC_CHECK(v.shape().getDimensions() == want && v.shape().size() == prod(want), "slice kind " << kind << " of " << ref::str(d) << " has shape " << ref::str(v.shape().getDimensions()) << ", expected " << ref::str(want));
        big::corners(want, [&](const Dims& i) { Dims j(i); for (size_t q = 0; q < j.size(); ++q) j[q] = start[q] + i[q] * st[q]; size_t f = flat(j, d); MC_TRAIL("slice kind " << kind << " " << ref::str(i)); big::C x = (big::C)(1 + ++k % 100), old = b.p[f]; b.p[f] = x; MC_CHECK(v[i] == x, "slice of " << ref::str(d) << " at " << ref::str(i) << " does not show the element " << ref::str(j)); v.set(i, (big::C)-x); MC_CHECK(b.p[f] == -x, "slice of " << ref::str(d) << " at " << ref::str(i) << " does not write the element " << ref::str(j)); b.p[f] = old; mc::step(); });
    }
}
void explore() {
    mc::bound("large tensors", "five kinds of slices of " + std::to_string(big::dims().size()) + " tensors of 2^31 to 2^33 elements, at corners, thirds and middles");
    for (auto& d : big::dims()) mc::run([&] { return "slices of huge " + ref::str(d); }, [&] { huge(d); });
    auto ranges = [](int d) { std::vector<Sl> r; for (int s = -d - 1; s <= d + 1; ++s) for (int e = -d - 1; e <= d + 1; ++e) for (int st = 0; st <= d + 1; ++st) r.push_back({s, e, st}); r.push_back({0, d, -1}); r.push_back({d - 1, 0, -1}); r.push_back({0, 1000, 1}); r.push_back({-1000, d, 2}); return r; };
    mc::bound("rank 1", "all (start,end) in -d-1..d+1, all steps 0..d+1, extents 1..8");
    for (int d = 1; d <= 8; ++d) mc::run([&] { return "slices of (" + std::to_string(d) + ")"; }, [&] { for (auto& a : ranges(d)) { MC_TRAIL(str({a})); one<float>({d}, {a}, true); one<double>({d}, {a}, false); } });
    int m2 = mc::thorough() ? 4 : 3;
    mc::bound("rank 2", "the full product of those ranges for extents 1.." + std::to_string(m2));
    shapesOfRank(2, m2, 100, [&](const Dims& d) {
        for (auto& a : ranges(d[0])) mc::run([&] { return "slices of " + ref::str(d) + " with " + str({a}); }, [&] { for (auto& b : ranges(d[1])) { MC_TRAIL(str({a, b})); one<float>(d, {a, b}, a.st == 1 || b.st == 2); } });
    });
    auto few = [](int d) { std::vector<Sl> r = {{0, d, 1}, {1, d, 1}, {0, -1, 1}, {-2, d, 1}, {0, d, 2}, {1, d, 2}, {0, 1, 1}, {d - 1, d, 1}, {0, d + 3, 3}}; return r; };
    mc::bound("rank 3, 4 and 5", "products of 9 ranges per dimension over extents 1..4 (rank 3), 1..3 (rank 4; extents 2..3 only in part), and a selection of rank 5");
    shapesOfRank(3, 4, 64, [&](const Dims& d) {
        mc::run([&] { return "slices of " + ref::str(d); }, [&] { for (auto& a : few(d[0])) for (auto& b : few(d[1])) for (auto& c : few(d[2])) { MC_TRAIL(str({a, b, c})); one<float>(d, {a, b, c}, a.st == 1); } });
    });
    shapesOfRank(4, mc::thorough() ? 3 : 2, 81, [&](const Dims& d) {
        for (auto& a : few(d[0])) mc::run([&] { return "slices of " + ref::str(d) + " with " + str({a}); }, [&] { for (auto& b : few(d[1])) for (auto& c : few(d[2])) for (auto& e : few(d[3])) { MC_TRAIL(str({a, b, c, e})); one<float>(d, {a, b, c, e}, c.st == 1); } });
    });
    for (Dims d : std::vector<Dims>{{3, 4, 3, 2}, {2, 3, 2, 3, 2}, {5, 7}, {70}, {3, 70}, {70, 3}, {20, 20}, {2, 2, 2, 2, 2, 2}}) for (int k = 0; k < 9; ++k)
        mc::run([&] { return "slices of larger " + ref::str(d) + " pattern " + std::to_string(k); }, [&] { for (int q = 0; q < 9; ++q) { std::vector<Sl> v; for (size_t i = 0; i < d.size(); ++i) v.push_back(few(d[i])[(k + i * q) % 9]); MC_TRAIL(str(v)); one<float>(d, v, true); one<double>(d, v, true); } });
    // wrong numbers of ranges or steps
    shapes(3, 3, 27, [&](const Dims& d) { mc::run([&] { return "wrong numbers of ranges for " + ref::str(d); }, [&] {
        Tensor<float> t = mk<float>(pat(d, 0)); size_t r = d.size();
        for (size_t a = 0; a <= r + 2; ++a) for (size_t b = 0; b <= r + 2; ++b) if (a != r || b != r) { std::vector<std::pair<int, int>> se(a, {0, 1}); std::vector<int> st(b, 1); MC_CHECK(mc::throws([&] { SliceView<float> v(t.getData(), se, st); }), a << " ranges and " << b << " steps accepted for " << ref::str(d)); mc::step(); }
    }); });
    std::vector<Dims> ts; shapes(4, 4, 144, [&](const Dims& d) { ts.push_back(d); });
    shapesOfRank(5, 2, 32, [&](const Dims& d) { ts.push_back(d); });
    for (Dims d : std::vector<Dims>{{70}, {70, 3}, {3, 70}, {2, 70, 2}, {130, 2}, {17, 19}, {5, 6, 7}, {2, 3, 4, 5}, {3, 2, 3, 2, 3}, {2, 2, 2, 2, 2, 2}}) ts.push_back(d);
    mc::bound("Tensor::slice", "every dimension and index in and around the range for " + std::to_string(ts.size()) + " shapes up to rank 6");
    for (auto& d : ts) { mc::run([&] { return "Tensor::slice float " + ref::str(d); }, [&] { tensorSlice<float>(d); }); mc::run([&] { return "Tensor::slice double " + ref::str(d); }, [&] { tensorSlice<double>(d); }); }
    for (Dims d : std::vector<Dims>{{2, 3, 2}, {3, 2}, {2, 2, 2, 2}, {3, 3, 3}}) mc::run([&] { return "slices of slices of " + ref::str(d); }, [&] { chains(d); });
}

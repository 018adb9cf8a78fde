// big.hpp - tensors of more than 2^31 elements over lazily allocated pages: only touched elements cost memory.
#pragma once
#include "ref.hpp"
#include <sys/mman.h>
namespace big {
typedef signed char C;
struct Big {
    Dims d; C* p; size_t n; TensorData<C, CPUDevice>* t; // the tensor owns its storage for ever: it is never destroyed
    explicit Big(const Dims& dims) : d(dims), p(nullptr), n(ref::prod(dims)), t(nullptr) {
        void* m = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (m == MAP_FAILED) return; // no address space: the case is skipped
        p = (C*)m; t = new TensorData<C, CPUDevice>(Shape(d), p);
    }
    ~Big() { if (p) munmap(p, n); }
};
inline std::vector<Dims> dims() { return {{65536, 32769}, {32769, 65536}, {3, 1073741825}, {2, 2, 1073741824}, {65537, 65536}, {1, 46341, 46342, 2}, {4294, 1000, 1000}, {2147483647, 2}, {5, 1, 2147483647}}; }
// positions to look at in one dimension
inline std::vector<int> at(int d) { std::vector<int> r{0, 1, d / 3, d / 2, d - 2, d - 1}; std::vector<int> q; for (int x : r) if (x >= 0 && x < d && std::find(q.begin(), q.end(), x) == q.end()) q.push_back(x); return q; }
template <class F> void corners(const Dims& d, F f) {
    std::vector<std::vector<int>> a; for (int x : d) a.push_back(at(x));
    std::vector<size_t> k(d.size(), 0);
    for (;;) { Dims i; for (size_t q = 0; q < d.size(); ++q) i.push_back(a[q][k[q]]); f(i); int q = (int)d.size() - 1; while (q >= 0 && ++k[q] == a[q].size()) k[q--] = 0; if (q < 0) return; }
}
} // namespace big

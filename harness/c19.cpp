// C19: SGD follows its update rule for every option and gradient history.
#include "opts.hpp"
void explore() {
    using namespace opts; std::vector<Opt> all;
    for (double lr : {0.1, 0.5}) for (double m : {0.0, 0.5, 0.9}) for (double d : {0.0, 0.3, 1.0}) for (double w : {0.0, 0.1}) for (int n = 0; n < 2; ++n) { Opt o{SGD, lr}; o.momentum = m; o.dampening = d; o.wd = w; o.nesterov = n; all.push_back(o); }
    explore(all, {0, 1, -2.5, 0.125}, {1, -0.5, 0.25, 0, -1, 0.125, 2});
    mc::run([&] { return std::string("default options"); }, [&] { SGDOptimizer<float> s; Tensor<float> w({2}, {1.0f, -1.0f}), g({2}, {1.0f, 0.5f}); Opt o{SGD, 0.01}; o.momentum = 0.9; Param<float> p(RT({2}, {1, -1})); for (int k = 0; k < 5; ++k) { call<float>(s, {&p.w}, {&g}, NONE); p.advance(o, RT({2}, {1, 0.5}), -1); p.judge("default SGD"); } });
}

// Large grids, where the dense reference is too slow: the abscissae are short
// numbers in a repeating pattern of gaps, and the error bound is taken from a
// small grid with the same pattern.
#pragma once
#include "common.hpp"

namespace prop {
struct Large {
    const Backend* b = nullptr;
    Grid gr;
    R bound = 40 * EPS;  // relative to the largest datum
    R hmin = 0.25L;
    bool huge = false;
};

inline Axis patterned(const std::vector<double>& gaps, double a, size_t n,
                      bool periodic, bool uniform) {
    Axis r;
    r.periodic = periodic;
    r.uniform = uniform;
    r.n = n;
    size_t m = n + (periodic ? 1 : 0);
    double x = a;
    for (size_t i = 0; i < m; ++i) {
        r.x.push_back(x);
        x += gaps[i % gaps.size()];
    }
    r.a = r.x.front();
    r.b = r.x.back();
    return r;
}

inline Large gen_large(Ctx& ctx, bool no_steps) {
    Large l;
    Gen& g = ctx.g;
    auto any = [](const Backend& b) { return b.order <= 5 && b.dim <= 3; };
    auto smooth = [](const Backend& b) {
        return b.order >= 1 && b.order <= 5 && b.dim <= 3;
    };
    l.b = no_steps ? gen_backend(g, -1, smooth) : gen_backend(g, -1, any);
    size_t D = l.b->dim;
    l.huge = g.coin(1, 40);
    for (size_t d = 0; d < D; ++d) {
        static const size_t cap[] = {0, 1500, 50, 14};
        static const size_t cap_huge[] = {0, 140000, 300, 45};
        size_t lo = D == 3 ? 6 : 20;
        size_t n = lo + g.below((l.huge ? cap_huge : cap)[D]);
        bool periodic = g.coin(), uniform = g.coin();
        std::vector<double> gaps{0.25};
        // two lists in three are unequally spaced
        if (!uniform && g.coin(2, 3)) {
            gaps.clear();
            for (size_t i = 0; i < 5; ++i)
                gaps.push_back(0.25 * static_cast<double>(1 + g.below(3)));
        }
        double a = static_cast<double>(g.range(-5, 5));
        l.gr.ax.push_back(patterned(gaps, a, n, periodic, uniform));
        const Axis& ax = l.gr.ax.back();
        ref::RefAxis ra(patterned(gaps, a, 20, periodic, uniform),
                        static_cast<int>(l.b->order));
        R X = std::max(std::fabs(ax.a), std::fabs(ax.b));
        l.bound *= 2 * ra.K * ra.K * (1 + R(l.b->order + 1) * X / 0.25L);
    }
    ctx.label(l.huge ? "huge grid" : "large grid");
    return l;
}
}  // namespace prop

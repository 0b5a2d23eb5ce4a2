// Shared pieces of the property files.
#pragma once
#include "gen.hpp"

namespace prop {
using namespace gen;
using ref::R;
using ref::Spline;
using vf::FnPtr;
using vf::IFn;
using vf::ITpl;
using vf::Proxy;
using vf::TplPtr;

// Constant of the rounding error bound.  The bound itself (ref.hpp) follows
// conditioning, magnitude and position; the largest ratio seen on the correct
// tree is about 1, see "max err/bound" in the evidence.
constexpr R C = 40;
// A coordinate whose error bound exceeds this fraction of the largest datum
// is not informative and is skipped (and counted).
constexpr R INFORMATIVE = 1e-4L;

struct Case {
    const Backend* b = nullptr;
    Grid grid;
    Data data;
    Spline s;
    int route = 0;

    std::string show_case() const {
        return gen::show(*b) + " route=" + std::to_string(route) + " grid " +
               gen::show(grid) + " f=" + gen::show(data.f) +
               " junk=" + num(data.junk);
    }
    bool constant() const {
        for (auto v : data.f)
            if (v != data.f[0]) return false;
        return true;
    }
};

inline Case gen_case(Ctx& ctx, const GridOpt& o = GridOpt(), int dim = -1,
                     bool (*pred)(const Backend&) = nullptr) {
    Case c;
    c.b = gen_backend(ctx.g, dim, pred);
    c.grid = gen_grid(ctx.g, c.b->dim, c.b->order, o);
    maybe_default_range(ctx.g, c.grid);
    c.data = gen_data(ctx.g, c.grid.size());
    c.route = static_cast<int>(ctx.g.below(vf::N_ROUTES));
    ctx.describe(c.show_case());
    c.s = Spline(c.grid, static_cast<int>(c.b->order), c.data.f);
    if (!c.s.ok) ctx.discard();
    label_grid(ctx, *c.b, c.grid);
    return c;
}

inline bool informative(const Spline& s, R unit, R scale) {
    (void)s;
    return C * unit <= INFORMATIVE * scale;
}

// compare one value with the reference; returns false if not informative
inline bool check_value(Ctx& ctx, const Spline& s, double got, const double* x,
                        const size_t* k, const char* what, R eps = EPS) {
    auto m = s.match(got, x, k, eps, C);
    R scale = s.fmax;
    if (k) {
        // scale of the derivative
        for (size_t d = 0; d < s.ax.size(); ++d)
            for (size_t i = 0; i < std::min(k[d], size_t(s.O)); ++i) scale /= s.ax[d].hmin;
    }
    if (m.unit > 0) ctx.maximum("max err/bound", static_cast<double>(m.err / m.unit));
    if (!m.ok) {
        std::string cs = "(";
        for (size_t d = 0; d < s.ax.size(); ++d)
            cs += (d ? "," : "") + num(x[d]) +
                  (k ? "|d^" + std::to_string(k[d]) : "");
        ctx.fail(std::string(what) + " at " + cs + ") = " + num(got) +
                 ", reference " + num(m.val) + ", error " +
                 num(static_cast<double>(m.err)) + ", allowed " +
                 num(static_cast<double>(C * m.unit)));
    }
    if (!informative(s, m.unit, scale)) {
        ctx.label("coordinate not informative");
        return false;
    }
    return true;
}

inline std::string at_str(const double* x, const size_t* k, size_t D) {
    std::string cs = "(";
    for (size_t d = 0; d < D; ++d)
        cs += (d ? "," : "") + num(x[d]) +
              (k ? "|d^" + std::to_string(k[d]) : "");
    return cs + ")";
}

// two results that must agree up to the given allowance
inline void check_close(Ctx& ctx, R got, R want, R allowed,
                        const std::string& what) {
    R e = std::fabs(got - want);
    if (allowed > 0)
        ctx.maximum("max diff/allowed", static_cast<double>(e / allowed));
    if (!(e <= allowed + 1e-300L))
        ctx.fail(what + ": " + num(got) + " vs " + num(want) + ", difference " +
                 num(static_cast<double>(e)) + ", allowed " +
                 num(static_cast<double>(allowed)));
}

// does the k-th derivative jump within rounding distance of x?
inline bool near_jump(const Spline& s, const double* x, const size_t* k,
                      R rel = 1e-9L) {
    for (size_t d = 0; d < s.ax.size(); ++d) {
        size_t kd = k ? k[d] : 0;
        if (kd < static_cast<size_t>(s.O)) continue;
        const ref::RefAxis& a = s.ax[d];
        R mag = std::max(a.X, std::fabs(R(x[d])));
        if (a.per) mag += a.X * std::fabs(x[d] - a.t0) / a.period;
        R delta = 64 * EPS * mag + rel * a.hmin;
        R y = a.reduce(x[d]);
        long sg = a.segment(y);
        if (std::fabs(y - a.knot(sg)) <= delta) return true;
        if (std::fabs(a.knot(sg + 1) - y) <= delta) return true;
    }
    return false;
}

inline bool zero(const std::vector<size_t>& k) {
    for (auto v : k)
        if (v) return false;
    return true;
}

// value or derivative through a drawn syntax
inline double probe(Ctx& ctx, const IFn& f, const double* x,
                    const std::vector<size_t>& k) {
    if (zero(k) && ctx.g.coin(2, 3))
        return f.call(x, static_cast<int>(ctx.g.below(3)));
    return f.der(x, k.data(), static_cast<int>(ctx.g.below(3)));
}

inline void mark_nontrivial(Ctx& ctx, const Case& c) {
    if (!c.constant()) ctx.nontrivial();
}

}  // namespace prop

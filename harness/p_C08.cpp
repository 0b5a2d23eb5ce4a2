#include <stdexcept>

#include "common.hpp"
using namespace prop;

static void body(Ctx& ctx) {
    Case c = gen_case(ctx);
    size_t D = c.b->dim, O = c.b->order;
    FnPtr f = c.b->make(c.grid, c.data, c.route);
    for (size_t d = 0; d < D; ++d) {
        const Axis& a = c.grid.ax[d];
        auto r = f->range(d), rs = f->spl_range(d);
        if (f->periodic(d) != a.periodic)
            ctx.fail("periodicity flag of axis " + std::to_string(d));
        if (f->uniform(d) != a.uniform)
            ctx.fail("uniformity flag of axis " + std::to_string(d));
        if (r != rs) ctx.fail("function and spline report different ranges");
        if (!a.periodic) {
            if (r.first != a.x.front() || r.second != a.x.back())
                ctx.fail("range of aperiodic axis " + std::to_string(d) +
                         " reported as [" + num(r.first) + "," +
                         num(r.second) + "]");
        } else {
            double P = a.x.back() - a.x.front();
            check_close(ctx, R(r.second) - R(r.first), P,
                        64 * EPS * (std::fabs(a.x.front()) +
                                    std::fabs(a.x.back()) + P),
                        "length of periodic range");
        }
    }
    if (f->order() != O) ctx.fail("reported order");
    double inf = std::numeric_limits<double>::infinity();
    size_t nc = 4 + ctx.g.below(10);
    bool some_out = false, some_in = false;
    for (size_t i = 0; i < nc; ++i) {
        CoordOpt in;
        in.outside = false;
        auto x = gen_coords(ctx.g, c.grid, c.s, in);
        bool out = false, finite = true;
        for (size_t d = 0; d < D; ++d) {
            const Axis& a = c.grid.ax[d];
            double lo = a.x.front(), hi = a.x.back(), len = hi - lo;
            switch (ctx.g.pick({50, 8, 8, 8, 8, 6, 6, 3, 3})) {
                case 0: break;
                case 1: x[d] = lo; break;
                case 2: x[d] = hi; break;
                case 3:
                    x[d] = nudge(lo, -1 - static_cast<int>(ctx.g.below(2)));
                    break;
                case 4:
                    x[d] = nudge(hi, 1 + static_cast<int>(ctx.g.below(2)));
                    break;
                case 5:
                    x[d] = lo - len * std::pow(10., static_cast<double>(
                                                        ctx.g.range(-12, 1)));
                    break;
                case 6:
                    x[d] = hi + len * std::pow(10., static_cast<double>(
                                                        ctx.g.range(-12, 1)));
                    break;
                case 7:
                    if (!a.periodic) x[d] = ctx.g.coin() ? -inf : inf;
                    break;
                default:
                    x[d] = nudge(ctx.g.coin() ? lo : hi, 0);
                    x[d] = ctx.g.coin() ? nudge(lo, 1) : nudge(hi, -1);
            }
            if (!a.periodic && (x[d] < lo || x[d] > hi)) out = true;
            if (!std::isfinite(x[d])) finite = false;
        }
        auto k = gen_orders(ctx.g, D, O);
        (out ? some_out : some_in) = true;
        int syn = static_cast<int>(ctx.g.below(3));
        std::string where = at_str(x.data(), k.data(), D);
        int thrown = 0;
        double v = 0, w = 0;
        try {
            v = f->at(x.data(), syn);
        } catch (const std::domain_error&) {
            thrown |= 1;
        }
        try {
            w = f->der_at(x.data(), k.data(), syn);
        } catch (const std::domain_error&) {
            thrown |= 2;
        }
        if (out && thrown != 3)
            ctx.fail("out-of-range " + where + " accepted by " +
                     (thrown & 1 ? "derivative_at" : "at"));
        if (!out && thrown)
            ctx.fail("in-range " + where + " rejected by " +
                     (thrown & 1 ? "at" : "derivative_at"));
        ctx.label(out ? "out of range" : "in range");
        if (!finite) continue;
        // unchecked access never throws
        double v0 = f->call(x.data(), syn);
        double w0 = f->der(x.data(), k.data(), syn);
        if (!out) {
            bool above = false;
            for (auto q : k) above |= q > O;
            if (!(v == v0) && !near_jump(c.s, x.data(), nullptr))
                check_close(ctx, v, v0,
                            2 * C * c.s.unit(x.data(), nullptr, EPS),
                            "at() vs operator() at " + where);
            if (!(w == w0)) {
                if (above) ctx.fail("derivative above the order at " + where);
                if (!near_jump(c.s, x.data(), k.data()))
                    check_close(ctx, w, w0,
                                2 * C * c.s.unit(x.data(), k.data(), EPS),
                                "derivative_at vs derivative at " + where);
            }
        }
    }
    bool any_aper = false;
    for (auto& a : c.grid.ax) any_aper |= !a.periodic;
    if (any_aper && some_in && some_out) ctx.nontrivial();
}

const pbt::Property& pbt::property() {
    static pbt::Property p = {
        "C08",
        "random backend, grid and data; reported range and flags compared with "
        "the request, then 4-13 coordinates with every axis independently "
        "inside, at the ends, an ulp or any distance (up to infinity) outside; "
        "at()/derivative_at() must throw domain_error iff an aperiodic "
        "coordinate is outside; non-trivial: the grid has an aperiodic axis and "
        "both accepted and rejected coordinates occurred",
        body};
    return p;
}

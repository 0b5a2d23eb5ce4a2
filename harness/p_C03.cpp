#include "common.hpp"
using namespace prop;

static void body(Ctx& ctx) {
    Case c = gen_case(ctx);
    FnPtr f = c.b->make(c.grid, c.data, c.route);
    size_t nc = 3 + ctx.g.below(8);
    bool useful = false;
    for (size_t i = 0; i < nc; ++i) {
        auto x = gen_coords(ctx.g, c.grid, c.s);
        auto k = gen_orders(ctx.g, c.b->dim, c.b->order);
        bool in = true, above = false;
        for (size_t d = 0; d < c.b->dim; ++d) {
            in = in && (c.grid.ax[d].periodic ||
                        (x[d] >= c.grid.ax[d].x.front() &&
                         x[d] <= c.grid.ax[d].x.back()));
            above |= k[d] > c.b->order;
        }
        double v;
        int syn = static_cast<int>(ctx.g.below(4));
        if (syn == 3)
            v = f->spl_der(x.data(), k.data());
        else if (in && ctx.g.coin(1, 3))
            v = f->der_at(x.data(), k.data(), syn);
        else
            v = f->der(x.data(), k.data(), syn);
        if (above) {
            ctx.label("order above spline order");
            if (v != 0)
                ctx.fail("derivative above spline order at " +
                         at_str(x.data(), k.data(), c.b->dim) + " is " +
                         num(v));
            continue;
        }
        if (!in) ctx.label("extrapolated coordinate");
        size_t sum = 0, mixed = 0;
        for (auto q : k) sum += q, mixed += q > 0;
        ctx.label(sum == 0 ? "order zero"
                           : mixed > 1 ? "mixed derivative" : "pure derivative");
        bool inf = check_value(ctx, c.s, v, x.data(), k.data(), "derivative");
        useful |= inf && sum > 0;
        if (sum == 0) {
            // order zero is the value
            R u = c.s.unit(x.data(), nullptr, EPS);
            if (!near_jump(c.s, x.data(), nullptr))
                check_close(ctx, v, f->call(x.data(), 0), C * u,
                            "zeroth derivative vs value");
        }
    }
    if (useful) mark_nontrivial(ctx, c);
}

const pbt::Property& pbt::property() {
    static pbt::Property p = {
        "C03",
        "random backend, grid, data and constructor; 3-10 pairs of coordinate "
        "(all kinds, see C02) and derivative multi-index (each order 0..spline "
        "order, sometimes above) compared with the reference spline's exact "
        "derivative; non-trivial: data not constant and a derivative of "
        "positive order with informative bound compared",
        body};
    return p;
}

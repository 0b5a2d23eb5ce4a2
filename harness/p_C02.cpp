#include "common.hpp"
using namespace prop;

static void body(Ctx& ctx) {
    Case c = gen_case(ctx);
    FnPtr f = c.b->make(c.grid, c.data, c.route);
    size_t nc = 3 + ctx.g.below(10);
    bool useful = false;
    for (size_t i = 0; i < nc; ++i) {
        auto x = gen_coords(ctx.g, c.grid, c.s);
        int syntax = static_cast<int>(ctx.g.below(3));
        bool in = true;
        for (size_t d = 0; d < c.b->dim; ++d)
            in = in && (c.grid.ax[d].periodic ||
                        (x[d] >= c.grid.ax[d].x.front() &&
                         x[d] <= c.grid.ax[d].x.back()));
        double v = syntax == 2 ? f->spl(x.data()) : f->call(x.data(), syntax);
        useful |= check_value(ctx, c.s, v, x.data(), nullptr,
                              syntax == 2 ? "spline value" : "value");
        if (!in) ctx.label("extrapolated coordinate");
        if (in) {
            double w = f->at(x.data(), syntax);
            check_value(ctx, c.s, w, x.data(), nullptr, "checked value");
        }
    }
    if (useful) mark_nontrivial(ctx, c);
    // an equivalent construction gives the same function
    if (ctx.g.coin(1, 3)) {
        int r2 = static_cast<int>(ctx.g.below(vf::N_ROUTES));
        FnPtr h = c.b->make(c.grid, c.data, r2);
        for (int i = 0; i < 3; ++i) {
            auto x = gen_coords(ctx.g, c.grid, c.s);
            check_value(ctx, c.s, h->call(x.data(), i & 1), x.data(), nullptr,
                        "value by other constructor");
        }
    }
}

const pbt::Property& pbt::property() {
    static pbt::Property p = {
        "C02",
        "a random backend (build configuration, dimension, order), grid "
        "(spacing, periodicity, size from the minimum up), data and "
        "constructor are drawn and 3-12 coordinates (inside, on and an ulp off "
        "nodes and knots, end intervals, outside, many periods away) are "
        "compared with a long double reference spline; non-trivial: data not "
        "constant and at least one coordinate whose error bound is below 1e-4 "
        "of the data",
        body};
    return p;
}

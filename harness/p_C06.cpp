#include "common.hpp"
using namespace prop;

static void body(Ctx& ctx) {
    Case c = gen_case(ctx);
    size_t D = c.b->dim;
    Data g2 = gen_data(ctx.g, c.grid.size());
    auto coef = [&]() -> double {
        switch (ctx.g.pick({30, 30, 20, 10, 10})) {
            case 0: return static_cast<double>(ctx.g.range(-3, 3));
            case 1: return ctx.g.uniform(-2, 2);
            case 2: return std::ldexp(1., static_cast<int>(ctx.g.range(-60, 60)));
            case 3: return -1e-12;
            default: return std::pow(10., static_cast<double>(ctx.g.range(-40, 40)));
        }
    };
    double a = coef(), b = coef();
    size_t mode = ctx.g.pick({60, 20, 20});
    if (mode == 1) b = 0;  // homogeneity alone
    Data h;
    h.f.resize(c.data.f.size());
    h.junk = 0;
    for (size_t i = 0; i < h.f.size(); ++i)
        h.f[i] = static_cast<double>(R(a) * c.data.f[i] + R(b) * g2.f[i]);
    ctx.describe(c.show_case() + " a=" + num(a) + " b=" + num(b) +
                 " g=" + show(g2.f));
    bool viatpl = ctx.g.coin();
    FnPtr F, G, H;
    if (viatpl) {
        TplPtr t = c.b->make_tpl(c.grid, c.route);
        int how = static_cast<int>(ctx.g.below(4));
        F = t->interpolate(c.data, how);
        G = t->interpolate(g2, how);
        switch (ctx.g.below(4)) {
            case 0:  // from a template that is given away
                H = c.b->make_tpl(c.grid, c.route)->interpolate_rvalue(h, how);
                break;
            case 1:  // into an existing function
                H = F->clone();
                t->interpolate_into(*H, h, how);
                break;
            default: H = t->interpolate(h, how);
        }
    } else {
        F = c.b->make(c.grid, c.data, c.route);
        G = c.b->make(c.grid, g2, c.route);
        H = c.b->make(c.grid, h, c.route);
    }
    Spline sg = c.s, sh = c.s;
    sg.load(g2.f);
    sh.load(h.f);
    bool useful = false;
    size_t nc = 3 + ctx.g.below(5);
    for (size_t i = 0; i < nc; ++i) {
        auto x = gen_coords(ctx.g, c.grid, c.s);
        std::vector<size_t> k(D, 0);
        if (ctx.g.coin()) k = gen_orders(ctx.g, D, c.b->order, false);
        // all three functions see the same segment, so no jump problem
        R vf_ = probe(ctx, *F, x.data(), k), vg = probe(ctx, *G, x.data(), k),
          vh = probe(ctx, *H, x.data(), k);
        if (near_jump(c.s, x.data(), k.data())) continue;
        R uf = c.s.unit(x.data(), k.data(), EPS),
          ug = sg.unit(x.data(), k.data(), EPS),
          uh = sh.unit(x.data(), k.data(), EPS);
        R allow = C * (uh + std::fabs(R(a)) * uf + std::fabs(R(b)) * ug);
        check_close(ctx, vh, R(a) * vf_ + R(b) * vg, allow,
                    "linear combination at " + at_str(x.data(), k.data(), D));
        useful |= zero(k) && allow <= INFORMATIVE * sh.fmax;
    }
    // data independent of one axis
    if (mode == 2) {
        size_t d0 = ctx.g.below(D);
        size_t stride = 1;
        for (size_t d = D; d-- > d0 + 1;) stride *= c.grid.ax[d].n;
        Data q = c.data;
        for (size_t i = 0; i < q.f.size(); ++i) {
            size_t j = i / stride % c.grid.ax[d0].n;
            q.f[i] = c.data.f[i - j * stride];
        }
        FnPtr Q = c.b->make(c.grid, q, c.route);
        Spline sq = c.s;
        sq.load(q.f);
        for (int i = 0; i < 3; ++i) {
            auto x = gen_coords(ctx.g, c.grid, c.s);
            auto y = x;
            y[d0] = gen_coord(ctx.g, c.grid.ax[d0], c.s.ax[d0], CoordOpt());
            std::vector<size_t> k(D, 0);
            if (D > 1 && ctx.g.coin(1, 3))
                k = gen_orders(ctx.g, D, c.b->order, false);
            k[d0] = 0;
            bool jump = false;
            for (size_t d = 0; d < D; ++d)
                if (d != d0 && k[d] >= c.b->order) jump = true;
            if (jump && near_jump(c.s, x.data(), k.data())) continue;
            R al = C * (sq.unit(x.data(), k.data(), EPS) +
                        sq.unit(y.data(), k.data(), EPS));
            check_close(ctx, probe(ctx, *Q, y.data(), k),
                        probe(ctx, *Q, x.data(), k), al,
                        "data independent of axis " + std::to_string(d0) +
                            " at " + at_str(x.data(), k.data(), D) + " and " +
                            at_str(y.data(), nullptr, D));
            if (c.b->order > 0) {
                k[d0] = 1 + ctx.g.below(c.b->order);
                check_close(ctx, Q->der(x.data(), k.data(), 0), 0,
                            C * sq.unit(x.data(), k.data(), EPS),
                            "derivative along an axis the data do not depend "
                            "on at " +
                                at_str(x.data(), k.data(), D));
            }
        }
        ctx.label("data independent of an axis");
    }
    // constants everywhere
    if (mode == 1) {
        Data q = c.data;
        double v0 = c.data.f[ctx.g.below(c.data.f.size())];
        if (v0 == 0) v0 = 1;
        for (auto& v : q.f) v = v0;
        q.junk = v0;
        FnPtr Q = c.b->make(c.grid, q, c.route);
        Spline sq = c.s;
        sq.load(q.f);
        for (int i = 0; i < 4; ++i) {
            auto x = gen_coords(ctx.g, c.grid, c.s);
            check_close(ctx, Q->call(x.data(), i & 1), v0,
                        C * sq.unit(x.data(), nullptr, EPS),
                        "constant at " + at_str(x.data(), nullptr, D));
        }
        ctx.label("constant data");
    }
    if (useful && a != 0) mark_nontrivial(ctx, c);
}

const pbt::Property& pbt::property() {
    static pbt::Property p = {
        "C06",
        "random backend and grid, two data arrays and two scalars (tiny to "
        "huge); functions of f, g and a*f+b*g compared at 3-7 coordinates, "
        "values and derivatives; sometimes data independent of one axis, or "
        "constant; input data compared before and after; non-trivial: f not "
        "constant, a != 0, informative bound",
        body};
    return p;
}

#include "common.hpp"
using namespace prop;

static void body(Ctx& ctx) {
    GridOpt go;
    const Backend* b = gen_backend(ctx.g);
    Case c;
    c.b = b;
    size_t D = b->dim;
    size_t pd = ctx.g.below(D);  // this axis is periodic
    for (size_t d = 0; d < D; ++d) {
        go.periodic = d == pd ? 1 : -1;
        c.grid.ax.push_back(gen_axis(ctx.g, b->order, D, go));
    }
    maybe_default_range(ctx.g, c.grid);
    c.data = gen_data(ctx.g, c.grid.size());
    c.route = static_cast<int>(ctx.g.below(vf::N_ROUTES));
    ctx.describe(c.show_case() + " axis " + std::to_string(pd));
    c.s = Spline(c.grid, static_cast<int>(b->order), c.data.f);
    if (!c.s.ok) ctx.discard();
    label_grid(ctx, *b, c.grid);
    FnPtr f = b->make(c.grid, c.data, c.route);
    const Axis& a = c.grid.ax[pd];
    double P = a.x.back() - a.x.front();
    bool useful = false;

    auto rg = f->range(pd);
    check_close(ctx, R(rg.second) - R(rg.first), P,
                64 * EPS * (std::fabs(a.x.front()) + std::fabs(a.x.back()) + P),
                "length of the periodic range");

    CoordOpt inside;
    inside.outside = false;
    // whole periods
    for (int i = 0; i < 5; ++i) {
        auto x = gen_coords(ctx.g, c.grid, c.s);
        std::vector<size_t> k(D, 0);
        if (ctx.g.coin()) k = gen_orders(ctx.g, D, b->order, false);
        long w = ctx.g.coin(1, 3) ? ctx.g.range(-300, 300) : ctx.g.range(-2, 2);
        if (ctx.g.coin(1, 10)) w = many_periods(ctx.g);
        if (w == 0) w = 1;
        auto y = x;
        y[pd] = x[pd] + static_cast<double>(w) * P;
        if (near_jump(c.s, x.data(), k.data()) ||
            near_jump(c.s, y.data(), k.data()))
            continue;
        double v = probe(ctx, *f, x.data(), k), u = probe(ctx, *f, y.data(), k);
        R un = c.s.unit(x.data(), k.data(), EPS) +
               c.s.unit(y.data(), k.data(), EPS);
        check_close(ctx, u, v, C * un,
                    "value " + std::to_string(w) + " periods from " +
                        at_str(x.data(), k.data(), D));
        useful |= C * un <= INFORMATIVE * c.s.fmax && zero(k);
    }
    // where all numbers are short, whole periods are exact, so that even the
    // side taken at a jump repeats
    auto brief = [](double v) {
        return std::fabs(v) <= 65536 && v * 4 == std::floor(v * 4);
    };
    bool exact = brief(a.a) && brief((a.b - a.a) / double(a.n));
    for (auto v : a.x) exact &= brief(v);
    if (exact) {
        for (int i = 0; i < 3; ++i) {
            auto x = gen_coords(ctx.g, c.grid, c.s, inside);
            size_t j = ctx.g.below(a.n);
            x[pd] = ctx.g.coin()   ? a.x[j]
                    : ctx.g.coin() ? (a.x[j] + a.x[j + 1]) / 2
                                   : (ctx.g.coin() ? rg.first : rg.second);
            std::vector<size_t> k(D, 0);
            if (ctx.g.coin(2, 3)) k[pd] = b->order;
            auto y = x;
            y[pd] += P * static_cast<double>(ctx.g.coin() ? ctx.g.range(-1, 1)
                                                          : ctx.g.range(-64, 64));
            double v = probe(ctx, *f, x.data(), k), u = probe(ctx, *f, y.data(), k);
            R un = c.s.unit(x.data(), k.data(), EPS) +
                   c.s.unit(y.data(), k.data(), EPS);
            check_close(ctx, u, v, C * un,
                        "whole periods from " + at_str(x.data(), k.data(), D) +
                            " at " + num(y[pd]));
            ctx.label("exact periods compared");
        }
    }
    // bounds-checked access accepts every coordinate on this axis
    for (int i = 0; i < 3; ++i) {
        auto x = gen_coords(ctx.g, c.grid, c.s, inside);
        for (size_t d = 0; d < D; ++d)
            if (c.grid.ax[d].periodic && ctx.g.coin()) {
                const Axis& q = c.grid.ax[d];
                double L = q.x.back() - q.x.front();
                x[d] += static_cast<double>(ctx.g.coin(1, 8) ? many_periods(ctx.g) : ctx.g.range(-50, 50)) * L;
            }
        std::vector<size_t> k(D, 0);
        if (b->order) k[pd] = ctx.g.below(b->order);
        double v, w;
        try {
            v = f->at(x.data(), i & 1);
            w = f->der_at(x.data(), k.data(), i);
        } catch (const std::domain_error& e) {
            ctx.fail("checked access rejected periodic coordinate " +
                     at_str(x.data(), nullptr, D));
        }
        if (!near_jump(c.s, x.data(), nullptr))
            check_close(ctx, v, f->call(x.data(), 0),
                        2 * C * c.s.unit(x.data(), nullptr, EPS),
                        "checked vs unchecked value");
        if (!near_jump(c.s, x.data(), k.data()))
            check_close(ctx, w, f->der(x.data(), k.data(), 0),
                        2 * C * c.s.unit(x.data(), k.data(), EPS),
                        "checked vs unchecked derivative");
    }
    // so far away that the position within the period is lost to rounding the
    // result is still one of the function's values
    if (ctx.g.coin(1, 3)) {
        auto x = gen_coords(ctx.g, c.grid, c.s, inside);
        x[pd] = (ctx.g.coin() ? 1 : -1) * (P + std::fabs(a.x.front())) *
                std::pow(10.0, static_cast<double>(ctx.g.range(9, 200)));
        double v = 0;
        try {
            v = f->at(x.data(), 0);
        } catch (const std::domain_error&) {
            ctx.fail("checked access rejected periodic coordinate " + at_str(x.data(), nullptr, D));
        }
        R most = c.s.cmax * (1 + 1e-6L) + C * EPS * c.s.cmax * c.s.cond();
        if (!(std::fabs(R(v)) <= most))
            ctx.fail("value " + num(v) + " beyond all control points (" + num(double(c.s.cmax)) +
                     ") far away " + at_str(x.data(), nullptr, D));
    }
    // smooth across the seam, wherever the implementation puts it
    if (b->order > 0) {
        auto x = gen_coords(ctx.g, c.grid, c.s, inside);
        auto k = gen_orders(ctx.g, D, b->order, false);
        k[pd] = ctx.g.below(b->order);
        double seam[4] = {a.x.front(), a.x.back(), rg.first, rg.second};
        double at = seam[ctx.g.below(4)];
        auto y = x;
        x[pd] = nudge(at, -static_cast<int>(ctx.g.below(4)));
        y[pd] = nudge(at, static_cast<int>(ctx.g.below(4)));
        if (!near_jump(c.s, x.data(), k.data())) {
            double v = f->der(x.data(), k.data(), 0),
                   w = f->der(y.data(), k.data(), 0);
            R un = c.s.unit(x.data(), k.data(), EPS) +
                   c.s.unit(y.data(), k.data(), EPS);
            check_close(ctx, v, w, C * un,
                        "across the seam " + at_str(x.data(), k.data(), D));
            ctx.label("seam compared");
            // and the two ends of the period
            y[pd] = at == a.x.back() || at == rg.second ? at - P : at + P;
            w = f->der(y.data(), k.data(), 0);
            un = c.s.unit(x.data(), k.data(), EPS) +
                 c.s.unit(y.data(), k.data(), EPS);
            check_close(ctx, v, w, C * un,
                        "ends of the period " + at_str(x.data(), k.data(), D));
        }
    }
    // rotation of the data
    if (a.n > 1) {
        size_t r = 1 + ctx.g.below(a.n - 1);
        Grid g2 = c.grid;
        Axis& q = g2.ax[pd];
        double shift = 0;  // g(x) = f(x + shift)
        if (!a.uniform) {
            for (size_t i = 0; i <= a.n; ++i)
                q.x[i] = i + r <= a.n ? a.x[i + r] : a.x[i + r - a.n] + P;
            q.x[a.n] = q.x[0] + P;
            for (size_t i = 0; i < a.n; ++i)
                if (!(q.x[i] < q.x[i + 1])) ctx.discard();
            q.a = q.x.front();
            q.b = q.x.back();
        } else {
            shift = P / static_cast<double>(a.n) * static_cast<double>(r);
        }
        Data d2 = c.data;
        size_t stride = 1;
        for (size_t d = D; d-- > pd + 1;) stride *= c.grid.ax[d].n;
        for (size_t i = 0; i < d2.f.size(); ++i) {
            size_t j = i / stride % a.n;
            size_t src = i - j * stride + (j + r) % a.n * stride;
            d2.f[i] = c.data.f[src];
        }
        FnPtr h = b->make(g2, d2, c.route);
        Spline s2(g2, static_cast<int>(b->order), d2.f);
        if (!s2.ok) ctx.discard();
        for (int i = 0; i < 4; ++i) {
            auto x = gen_coords(ctx.g, c.grid, c.s);
            std::vector<size_t> k(D, 0);
            if (ctx.g.coin(1, 3)) k = gen_orders(ctx.g, D, b->order, false);
            auto y = x;
            y[pd] = x[pd] + shift;
            if (near_jump(c.s, y.data(), k.data()) ||
                near_jump(s2, x.data(), k.data()))
                continue;
            R un = c.s.unit(y.data(), k.data(), EPS) +
                   s2.unit(x.data(), k.data(), EPS);
            check_close(ctx, probe(ctx, *h, x.data(), k),
                        probe(ctx, *f, y.data(), k), C * un,
                        "data rotated by " + std::to_string(r) + " at " +
                            at_str(x.data(), k.data(), D));
            ctx.label("rotation compared");
        }
    }
    if (useful) mark_nontrivial(ctx, c);
}

const pbt::Property& pbt::property() {
    static pbt::Property p = {
        "C05",
        "random backend and grid with at least one periodic axis; values and "
        "derivatives compared between coordinates whole periods apart, between "
        "the two sides of the seam (ulps apart) and between the original and "
        "ring-rotated data; checked access on periodic coordinates must not "
        "throw; non-trivial: data not constant and an informative comparison a "
        "whole number of periods apart",
        body};
    return p;
}

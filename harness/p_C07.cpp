#include "common.hpp"
using namespace prop;

static void unflatten(const Grid& g, size_t flat, std::vector<size_t>& idx) {
    idx.resize(g.dim());
    for (size_t d = g.dim(); d-- > 0;) {
        idx[d] = flat % g.ax[d].n;
        flat /= g.ax[d].n;
    }
}
static size_t flatten(const Grid& g, const std::vector<size_t>& idx) {
    size_t f = 0;
    for (size_t d = 0; d < g.dim(); ++d) f = f * g.ax[d].n + idx[d];
    return f;
}
static void check_axis(Ctx& ctx, const Axis& a) {
    for (size_t i = 0; i + 1 < a.x.size(); ++i)
        if (!(a.x[i] < a.x[i + 1])) ctx.discard();
}

static void body(Ctx& ctx) {
    Case c = gen_case(ctx);
    size_t D = c.b->dim, O = c.b->order;
    FnPtr f = c.b->make(c.grid, c.data, c.route);
    size_t mode = ctx.g.pick({20, 20, 20, 20, 20});
    bool useful = false;
    Grid g2 = c.grid;
    Data d2 = c.data;
    std::vector<double> al(D, 1), be(D, 0);  // y = al * x + be
    std::vector<size_t> perm(D);             // axis d of g2 is perm[d] of grid
    for (size_t d = 0; d < D; ++d) perm[d] = d;
    std::string what;
    const Backend* b2 = c.b;

    if (mode == 0) {
        what = "affine map";
        for (size_t d = 0; d < D; ++d) {
            switch (ctx.g.pick({40, 30, 30})) {
                case 0:
                    al[d] = std::ldexp(1., static_cast<int>(ctx.g.range(-9, 9)));
                    break;
                case 1: al[d] = ctx.g.uniform(0.2, 6); break;
                default:
                    al[d] = std::pow(10., static_cast<double>(ctx.g.range(-8, 8)));
            }
            const Axis& a = c.grid.ax[d];
            double h = (a.x.back() - a.x.front()) * al[d];
            if (ctx.g.coin(2, 3)) be[d] = h * ctx.g.uniform(-4, 4);
            Axis& q = g2.ax[d];
            q.a = al[d] * a.a + be[d];
            q.b = al[d] * a.b + be[d];
            for (size_t i = 0; i < q.x.size(); ++i)
                q.x[i] = al[d] * a.x[i] + be[d];
            if (q.uniform) q.x.front() = q.a, q.x.back() = q.b;
            check_axis(ctx, q);
        }
    } else if (mode == 1) {
        what = "mirror";
        std::vector<bool> m(D, false);
        m[ctx.g.below(D)] = true;
        for (size_t d = 0; d < D; ++d) {
            if (ctx.g.coin(1, 3)) m[d] = true;
            if (!m[d]) continue;
            al[d] = -1;
            const Axis& a = c.grid.ax[d];
            Axis& q = g2.ax[d];
            q.a = -a.b;
            q.b = -a.a;
            size_t M = a.x.size();
            for (size_t i = 0; i < M; ++i) q.x[i] = -a.x[M - 1 - i];
        }
        std::vector<size_t> idx;
        for (size_t i = 0; i < d2.f.size(); ++i) {
            unflatten(c.grid, i, idx);
            for (size_t d = 0; d < D; ++d)
                if (m[d]) {
                    size_t n = c.grid.ax[d].n;
                    idx[d] = c.grid.ax[d].periodic ? (n - idx[d]) % n
                                                   : n - 1 - idx[d];
                }
            d2.f[flatten(g2, idx)] = c.data.f[i];
        }
    } else if (mode == 2) {
        what = "axis permutation";
        if (D == 1) {
            ctx.label("nothing to permute");
            return;
        }
        for (size_t d = D; d-- > 1;) std::swap(perm[d], perm[ctx.g.below(d + 1)]);
        bool id = true;
        for (size_t d = 0; d < D; ++d) id &= perm[d] == d;
        if (id) std::swap(perm[0], perm[1]);
        for (size_t d = 0; d < D; ++d) g2.ax[d] = c.grid.ax[perm[d]];
        std::vector<size_t> idx, j(D);
        for (size_t i = 0; i < d2.f.size(); ++i) {
            unflatten(c.grid, i, idx);
            for (size_t d = 0; d < D; ++d) j[d] = idx[perm[d]];
            d2.f[flatten(g2, j)] = c.data.f[i];
        }
    } else if (mode == 3) {
        what = "uniform axis as list";
        bool any = false;
        for (size_t d = 0; d < D; ++d)
            if (c.grid.ax[d].uniform && (!any || ctx.g.coin())) {
                g2.ax[d].uniform = false;
                any = true;
                check_axis(ctx, g2.ax[d]);
            }
        if (!any) {
            ctx.label("no uniform axis");
            return;
        }
    } else {
        // product data
        what = "product";
        std::vector<FnPtr> f1;
        std::vector<Spline> s1;
        const Backend* b1 = vf::find_backend(c.b->cfg, 1, O);
        if (!b1) b1 = vf::find_backend(-1, 1, O);
        if (!b1 || D == 1) {
            ctx.label("no product");
            return;
        }
        std::vector<Data> dd;
        for (size_t d = 0; d < D; ++d) {
            Data q;
            q.f.resize(c.grid.ax[d].n);
            for (auto& v : q.f)
                v = static_cast<double>(ctx.g.range(-6, 6));
            q.junk = 1;
            Grid gg;
            gg.ax.push_back(c.grid.ax[d]);
            s1.emplace_back(gg, static_cast<int>(O), q.f);
            f1.push_back(b1->make(gg, q, 0));
            dd.push_back(q);
        }
        std::vector<size_t> idx;
        for (size_t i = 0; i < d2.f.size(); ++i) {
            unflatten(c.grid, i, idx);
            double p = 1;
            for (size_t d = 0; d < D; ++d) p *= dd[d].f[idx[d]];
            d2.f[i] = p;
        }
        FnPtr h = c.b->make(c.grid, d2, c.route);
        Spline s2 = c.s;
        s2.load(d2.f);
        for (int i = 0; i < 5; ++i) {
            auto x = gen_coords(ctx.g, c.grid, c.s);
            std::vector<size_t> k(D, 0);
            if (ctx.g.coin()) k = gen_orders(ctx.g, D, O, false);
            if (near_jump(s2, x.data(), k.data())) continue;
            R want = 1, sumrel = 0, full = 1;
            for (size_t d = 0; d < D; ++d) {
                R v = f1[d]->der(&x[d], &k[d], 0);
                R u = s1[d].unit(&x[d], &k[d], EPS);
                R g = s1[d].cmax;  // magnitude scale of this factor
                for (auto& e : s1[d].eval(&x[d], &k[d], EPS))
                    g = std::max(g, std::fabs(e.v));
                g += u;
                want *= v;
                full *= g;
                sumrel += g > 0 ? u / g : 0;
            }
            R allow = C * (s2.unit(x.data(), k.data(), EPS) + full * sumrel);
            check_close(ctx, probe(ctx, *h, x.data(), k), want, allow,
                        "product at " + at_str(x.data(), k.data(), D));
            useful |= zero(k) && allow <= INFORMATIVE * s2.fmax;
        }
        ctx.label(what);
        if (useful) ctx.nontrivial();
        return;
    }
    ctx.describe(c.show_case() + " " + what + " grid2 " + show(g2));
    int route2 = ctx.g.coin() ? c.route
                              : static_cast<int>(ctx.g.below(vf::N_ROUTES));
    FnPtr h = b2->make(g2, d2, route2);
    Spline s2(g2, static_cast<int>(O), d2.f);
    if (!s2.ok) ctx.discard();
    size_t nc = 3 + ctx.g.below(6);
    for (size_t i = 0; i < nc; ++i) {
        auto x = gen_coords(ctx.g, c.grid, c.s);
        std::vector<size_t> k(D, 0);
        if (ctx.g.coin()) k = gen_orders(ctx.g, D, O, false);
        std::vector<double> y(D);
        std::vector<size_t> ky(D);
        R jac = 1;
        for (size_t d = 0; d < D; ++d) {
            y[d] = al[perm[d]] * x[perm[d]] + be[perm[d]];
            ky[d] = k[perm[d]];
            for (size_t j = 0; j < std::min<size_t>(k[d], 64); ++j) jac *= R(al[d]);
        }
        if (near_jump(c.s, x.data(), k.data()) ||
            near_jump(s2, y.data(), ky.data()))
            continue;
        R allow = C * (c.s.unit(x.data(), k.data(), EPS) +
                       std::fabs(jac) * s2.unit(y.data(), ky.data(), EPS));
        check_close(ctx, R(probe(ctx, *h, y.data(), ky)) * jac,
                    probe(ctx, *f, x.data(), k), allow,
                    what + " at " + at_str(x.data(), k.data(), D));
        useful |= zero(k) && allow <= INFORMATIVE * c.s.fmax;
    }
    ctx.label(what);
    if (useful) mark_nontrivial(ctx, c);
}

const pbt::Property& pbt::property() {
    static pbt::Property p = {
        "C07",
        "random backend, grid and data, and one of: affine map of every axis, "
        "mirroring of axes, axis permutation, uniform axes restated as lists, "
        "product data; the two constructions are compared at 3-8 coordinates, "
        "values and derivatives; non-trivial: data not constant, the symmetry "
        "applies (D > 1 for permutation and product) and an informative bound",
        body};
    return p;
}

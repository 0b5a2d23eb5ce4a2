#include "large.hpp"
using namespace prop;

// polynomial in (x - m) / h
struct Poly {
    std::vector<R> a;
    R m = 0, h = 1;
    // sum of the magnitudes of the terms when abs is set
    R eval(R x, size_t k, bool abs) const {
        R u = (x - m) / h, r = 0;
        if (abs) u = std::fabs(u) + 1e-3L;
        for (size_t i = a.size(); i-- > k;) {
            R f = abs ? std::fabs(a[i]) : a[i];
            for (size_t j = 0; j < k; ++j) f *= R(i - j);
            r = r * u + f;
        }
        for (size_t j = 0; j < k; ++j) r /= h;
        return r;
    }
};

// one product of polynomials on a large grid
static void large(Ctx& ctx) {
    Large l = gen_large(ctx, true);
    const Grid& gr = l.gr;
    size_t D = gr.dim();
    std::vector<Poly> p(D);
    size_t maxdeg = 0;
    for (size_t d = 0; d < D; ++d) {
        const Axis& a = gr.ax[d];
        p[d].m = (R(a.x.front()) + R(a.x.back())) / 2;
        p[d].h = (R(a.x.back()) - R(a.x.front())) / 2;
        size_t deg = a.periodic ? 0 : ctx.g.below(l.b->order + 1);
        maxdeg = std::max(maxdeg, deg);
        for (size_t i = 0; i <= deg; ++i)
            p[d].a.push_back(static_cast<R>(ctx.g.range(-4, 4)) / 2);
        if (p[d].a[deg] == 0) p[d].a[deg] = 1;
    }
    auto P = [&](const double* x, const size_t* k) {
        R v = 1;
        for (size_t d = 0; d < D; ++d)
            v *= gr.ax[d].periodic ? (k && k[d] ? R(0) : p[d].a[0])
                                   : p[d].eval(x[d], k ? k[d] : 0, false);
        return v;
    };
    Data f;
    f.f.resize(gr.size());
    f.junk = ctx.g.coin() ? 0 : std::nan("");
    // samples per axis, then products
    std::vector<std::vector<R>> s(D);
    R fmax = 1;
    for (size_t d = 0; d < D; ++d) {
        R big = 0;
        for (size_t i = 0; i < gr.ax[d].n; ++i) {
            s[d].push_back(gr.ax[d].periodic ? p[d].a[0] : p[d].eval(gr.ax[d].x[i], 0, false));
            big = std::max(big, p[d].eval(gr.ax[d].x[i], 0, true));
        }
        fmax *= big;
    }
    for (size_t i = 0; i < f.f.size(); ++i) {
        size_t r = i;
        R v = 1;
        for (size_t d = D; d-- > 0;) {
            v *= s[d][r % gr.ax[d].n];
            r /= gr.ax[d].n;
        }
        f.f[i] = static_cast<double>(v);
    }
    int route = static_cast<int>(ctx.g.below(vf::N_ROUTES));
    ctx.describe("large " + show(*l.b) + " grid n=" + std::to_string(gr.size()) + " degree " + std::to_string(maxdeg));
    FnPtr fn = l.b->make(gr, f, route);
    for (size_t t = 0; t < 300; ++t) {
        std::vector<double> x(D);
        std::vector<size_t> k(D, 0);
        R allow = 4 * l.bound * fmax;
        for (size_t d = 0; d < D; ++d) {
            const Axis& a = gr.ax[d];
            size_t i = ctx.g.coin(1, 8) ? ctx.g.coin() ? 0 : a.x.size() - 2
                                        : ctx.g.below(a.x.size() - 1);
            double w = ctx.g.coin(1, 4) ? 0.5 : ctx.g.uniform(0, 1);
            x[d] = a.x[i] + w * (a.x[i + 1] - a.x[i]);
        }
        if (ctx.g.coin(1, 4)) {
            k[ctx.g.below(D)] = 1;
            allow *= 4 * R(l.b->order) / l.hmin;
        }
        check_close(ctx, probe(ctx, *fn, x.data(), k), P(x.data(), k.data()),
                    allow, "polynomial reproduction at " + at_str(x.data(), k.data(), D));
    }
    if (maxdeg > 0) ctx.nontrivial();
}

static void body(Ctx& ctx) {
    if (ctx.g.coin(1, 400)) return large(ctx);
    auto pred = [](const Backend& b) { return b.order >= 1; };
    const Backend* b = gen_backend(ctx.g, -1, pred);
    GridOpt go;
    Grid gr;
    for (size_t d = 0; d < b->dim; ++d) {
        go.periodic = ctx.g.coin(1, 5) ? 1 : 0;
        gr.ax.push_back(gen_axis(ctx.g, b->order, b->dim, go));
    }
    maybe_default_range(ctx.g, gr);
    size_t D = b->dim;
    // sum of products of one dimensional polynomials
    size_t terms = 1 + ctx.g.below(D > 1 ? 3 : 1);
    std::vector<std::vector<Poly>> p(terms, std::vector<Poly>(D));
    size_t maxdeg = 0;
    std::string pd;
    for (auto& t : p)
        for (size_t d = 0; d < D; ++d) {
            const Axis& a = gr.ax[d];
            t[d].m = (R(a.x.front()) + R(a.x.back())) / 2;
            t[d].h = (R(a.x.back()) - R(a.x.front())) / 2;
            size_t deg = a.periodic ? 0
                         : ctx.g.coin() ? b->order
                                        : ctx.g.below(b->order + 1);
            maxdeg = std::max(maxdeg, deg);
            bool mono = ctx.g.coin();
            for (size_t i = 0; i <= deg; ++i)
                t[d].a.push_back(
                    mono && i < deg ? 0
                                    : static_cast<R>(ctx.g.range(-4, 4)) / 2);
            if (t[d].a[deg] == 0) t[d].a[deg] = 1;
            pd += " deg" + std::to_string(deg);
        }
    auto P = [&](const double* x, const size_t* k, bool abs = false) {
        R s = 0;
        for (auto& t : p) {
            R v = 1;
            for (size_t d = 0; d < D; ++d) {
                if (gr.ax[d].periodic)
                    v *= k && k[d] ? R(0)
                         : abs    ? std::fabs(t[d].a[0])
                                  : t[d].a[0];
                else
                    v *= t[d].eval(x[d], k ? k[d] : 0, abs);
            }
            s += v;
        }
        return s;
    };
    Data f;
    f.f.resize(gr.size());
    f.junk = ctx.g.coin() ? 0 : std::nan("");
    R magnitude = 0;
    for (size_t i = 0; i < f.f.size(); ++i) {
        std::vector<double> x(D);
        size_t r = i;
        for (size_t d = D; d-- > 0;) {
            x[d] = gr.ax[d].x[r % gr.ax[d].n];
            r /= gr.ax[d].n;
        }
        f.f[i] = static_cast<double>(P(x.data(), nullptr));
        magnitude = std::max(magnitude, P(x.data(), nullptr, true));
    }
    int route = static_cast<int>(ctx.g.below(vf::N_ROUTES));
    ctx.describe(show(*b) + " route=" + std::to_string(route) + " grid " +
                 show(gr) + " polynomial" + pd + " f=" + show(f.f));
    Spline s(gr, static_cast<int>(b->order), f.f);
    if (!s.ok) ctx.discard();
    // terms that cancel leave nothing but the rounding of the samples
    if (s.fmax < 1e-3L * magnitude) ctx.discard();
    label_grid(ctx, *b, gr);
    ctx.label("degree " + std::to_string(maxdeg));
    FnPtr fn = b->make(gr, f, route);
    size_t nc = 4 + ctx.g.below(8);
    bool useful = false;
    for (size_t i = 0; i < nc; ++i) {
        auto x = gen_coords(ctx.g, gr, s);
        std::vector<size_t> k(D, 0);
        if (ctx.g.coin()) k = gen_orders(ctx.g, D, b->order, false);
        double v = probe(ctx, *fn, x.data(), k);
        R u = s.unit(x.data(), k.data(), EPS);
        R want = P(x.data(), k.data());
        R noise = 1e-17L * P(x.data(), k.data(), true);
        check_close(ctx, v, want, C * u + noise,
                    "polynomial reproduction at " +
                        at_str(x.data(), k.data(), D));
        R scale = s.fmax;
        for (size_t d = 0; d < D; ++d)
            for (size_t j = 0; j < std::min(k[d], size_t(s.O)); ++j) scale /= s.ax[d].hmin;
        useful |= C * u <= INFORMATIVE * scale;
    }
    if (useful && maxdeg > 0) ctx.nontrivial();
}

const pbt::Property& pbt::property() {
    static pbt::Property p = {
        "C04",
        "random backend, mostly aperiodic grid, and a sum of products of "
        "polynomials of degree 0..order per aperiodic variable sampled on it; "
        "values and derivatives at 4-11 coordinates (outside included) compared "
        "with the polynomial; non-trivial: degree > 0 and an informative bound; "
        "1 case in 400 on a grid of up to 140000 points",
        body};
    return p;
}

// Value and coordinate types.
#include "common.hpp"
#include "ty_api.hpp"
using namespace prop;

namespace ty {
std::vector<Backend>& registry() {
    static std::vector<Backend> r;
    return r;
}
}  // namespace ty

namespace {
// give v a mantissa of the type with this epsilon
R fit(Gen& g, R v, R eps) {
    if (eps > 1e-8L) return static_cast<float>(v);
    if (eps > 1e-17L) return static_cast<double>(v);
    if (v == 0) return v;
    // more digits than a double
    return v * (1 + static_cast<R>(g.range(-500, 500)) * 0x1p-61L);
}

void body(Ctx& ctx) {
    auto& reg = ty::registry();
    // type first, then the rest
    std::vector<int> types;
    for (auto& b : reg)
        if (std::find(types.begin(), types.end(), b.typ) == types.end())
            types.push_back(b.typ);
    std::sort(types.begin(), types.end());
    int typ = types[ctx.g.below(types.size())];
    size_t dim = 1 + ctx.g.pick({60, 28, 12});
    std::vector<const ty::Backend*> cand;
    for (auto& b : reg)
        if (b.typ == typ && b.dim == dim) cand.push_back(&b);
    const ty::Backend& b = *cand[ctx.g.below(cand.size())];
    R eps = std::max(b.eps_val, b.eps_coord);
    bool ext = eps < 1e-17L;

    GridOpt go;
    go.mild = true;
    go.big = false;
    Grid gr;
    for (size_t d = 0; d < dim; ++d) {
        Axis a = gen_axis(ctx.g, b.order, dim, go);
        if (a.uniform)
            a.xl = {fit(ctx.g, a.a, b.eps_coord), fit(ctx.g, a.b, b.eps_coord)};
        else
            for (auto v : a.x) a.xl.push_back(fit(ctx.g, v, b.eps_coord));
        for (size_t i = 0; i + 1 < a.xl.size(); ++i)
            if (!(a.xl[i] < a.xl[i + 1])) ctx.discard();
        gr.ax.push_back(a);
    }
    size_t n = gr.size(), nc = b.ncomp;
    std::vector<R> f(n * nc);
    for (size_t c = 0; c < nc; ++c) {
        size_t style = ctx.g.below(3);
        for (size_t i = 0; i < n; ++i)
            f[i * nc + c] =
                style == 0   ? static_cast<R>(ctx.g.range(-8, 8))
                : style == 1 ? fit(ctx.g, ctx.g.uniform(-1, 1), b.eps_val)
                             : fit(ctx.g, ctx.g.uniform(2, 3), b.eps_val);
    }
    int route = static_cast<int>(ctx.g.below(2));
    std::string fs;
    for (size_t i = 0; i < f.size() && i < 12; ++i) fs += " " + num(f[i]);
    ctx.describe(std::string(b.name) + " cfg" + std::to_string(b.cfg) +
                 " D=" + std::to_string(dim) + " O=" + std::to_string(b.order) +
                 " grid " + show(gr) + " f:" + fs);
    ctx.label(b.name);
    ctx.label("D=" + std::to_string(dim));
    ctx.label("cfg=" + std::to_string(b.cfg));
    std::vector<Spline> s;
    Spline base(gr, static_cast<int>(b.order));
    if (!base.ok) ctx.discard();
    for (size_t c = 0; c < nc; ++c) {
        std::vector<R> one(n);
        for (size_t i = 0; i < n; ++i) one[i] = f[i * nc + c];
        s.push_back(base);
        s.back().load(one);
    }
    auto fn = b.make(gr, f, route);
    // extended precision: the reference is no more precise than the result
    const R CT = ext ? 8 : C;
    bool useful = false;
    for (size_t d = 0; d < dim; ++d) {
        const Axis& a = gr.ax[d];
        if (!a.periodic && (fn->range_lo(d) != a.xl.front() ||
                            fn->range_hi(d) != a.xl.back()))
            ctx.fail("range of axis " + std::to_string(d) + " is [" +
                     num(fn->range_lo(d)) + "," + num(fn->range_hi(d)) + "]");
    }
    size_t npts = 4 + ctx.g.below(8);
    for (size_t q = 0; q < npts; ++q) {
        std::vector<R> x(dim);
        for (size_t d = 0; d < dim; ++d) {
            double c0 = gen_coord(ctx.g, gr.ax[d], s[0].ax[d], CoordOpt());
            x[d] = fit(ctx.g, c0, b.eps_coord);
            if (ctx.g.coin(1, 4)) {  // data point
                size_t i = ctx.g.below(gr.ax[d].n);
                x[d] = gr.ax[d].uniform ? fit(ctx.g, s[0].ax[d].x[i], b.eps_coord)
                                        : gr.ax[d].xl[i];
            }
        }
        std::vector<size_t> k(dim, 0);
        if (b.has_der && ctx.g.coin()) k = gen_orders(ctx.g, dim, b.order);
        std::vector<R> out(nc);
        const char* what = "value";
        if (zero(k) && b.has_proxy && ctx.g.coin(1, 4)) {
            fn->proxy(x.data(), out.data());
            what = "proxy";
        } else if (zero(k) && (!b.has_der || ctx.g.coin(2, 3)))
            fn->val(x.data(), out.data(), static_cast<int>(ctx.g.below(2)));
        else {
            fn->der(x.data(), k.data(), out.data(),
                    static_cast<int>(ctx.g.below(3)));
            what = "derivative";
        }
        std::string at = "(";
        for (size_t d = 0; d < dim; ++d)
            at += (d ? "," : "") + num(x[d]) + "|d" + std::to_string(k[d]);
        for (size_t c = 0; c < nc; ++c) {
            // the other components share the arithmetic of complex division
            R cmax = 0;
            for (auto& t : s) cmax = std::max(cmax, t.cmax);
            Spline& sp = s[c];
            R keep = sp.cmax;
            sp.cmax = cmax;
            auto m = sp.match(out[c], x.data(), k.data(), eps, CT);
            sp.cmax = keep;
            if (m.unit > 0)
                ctx.maximum(std::string("max err/bound ") + b.name,
                            static_cast<double>(m.err / m.unit));
            if (!m.ok)
                ctx.fail(std::string(b.name) + " " + what + " component " +
                         std::to_string(c) + " at " + at + "): " + num(out[c]) +
                         " instead of " + num(m.val) + ", allowed " +
                         num(CT * m.unit));
            R scale = sp.fmax;
            for (size_t d = 0; d < dim; ++d)
                for (size_t i = 0; i < std::min(k[d], size_t(sp.O)); ++i) scale /= sp.ax[d].hmin;
            useful |= CT * m.unit <= (ext ? 1e-16L : eps > 1e-8L ? 1e-2L : 1e-8L) * scale;
        }
    }
    if (useful) ctx.nontrivial();
}
}  // namespace

const pbt::Property& pbt::property() {
    static pbt::Property p = {
        "C19",
        "random value/coordinate types (float, double, long double, complex, "
        "user vector and mixtures), configuration, grid and data with full "
        "mantissas of those types; values, derivatives and proxies at 4-11 "
        "coordinates compared with the long double reference per component to "
        "the precision of the narrower type; non-trivial: some bound small "
        "against the data (below double rounding for long double)",
        body};
    return p;
}

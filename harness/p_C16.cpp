// Hand-built splines against the Cox-de Boor definition.
#include <tuple>

#include "bs_api.hpp"
#include "gen.hpp"

using namespace gen;
using ref::R;

namespace bs {
std::vector<Backend>& registry() {
    static std::vector<Backend> r;
    return r;
}
}  // namespace bs

namespace {
constexpr R CC = 40;

// O+2+... knots of one axis; returns the number of control points
struct Ax {
    bool per = false;
    std::vector<double> t;
    size_t n = 0;
    R hmin = 0, X = 0;
    size_t max_mult = 1;
};

double gen_gap(Gen& g, size_t style) {
    switch (style) {
        case 0: return 1;
        case 1: return static_cast<double>(1 + g.below(5));
        case 2: return g.uniform(0.2, 2);
        default: return std::ldexp(1.0, -static_cast<int>(g.below(8)));
    }
}

Ax gen_ax(Ctx& ctx, size_t O, size_t D) {
    Gen& g = ctx.g;
    Ax a;
    a.per = g.coin(2, 5);
    size_t style = g.pick({20, 25, 35, 20});
    double scale = g.coin(1, 4) ? std::pow(10.0, g.coin(1, 3) ? (double)g.range(-20, 20) : (double)g.range(-10, 10)) : 1;
    double off = g.coin() ? 0 : (double)g.range(-40, 40);
    static const size_t cap_small[] = {0, 16, 7, 4, 3};
    static const size_t cap_long[] = {0, 300, 60, 14, 6};
    const size_t* cap = g.coin(1, 60) ? cap_long : cap_small;
    bool rep = O > 0 && g.coin(2, 5);
    std::vector<double> t;
    if (!a.per) {
        a.n = O + 1 + g.below(cap[D] + 1);
        size_t inner = a.n - O - 1;  // inner knots
        size_t kind = g.pick({40, 30, 30});  // clamped, unclamped, mixed
        bool cl = kind == 0 || (kind == 2 && g.coin());
        bool cr = kind == 0 || (kind == 2 && !cl);
        ctx.label(cl && cr ? "clamped" : !cl && !cr ? "unclamped" : "half clamped");
        double x = off;
        for (size_t i = 0; i <= O; ++i) {
            t.push_back(x);
            if (!cl && i < O) x += gen_gap(g, style);
        }
        // range starts at t[O] = x
        size_t m = 1;
        double last = x;
        x += gen_gap(g, style);
        for (size_t i = 0; i < inner; ++i) {
            if (rep && i > 0 && m < O && x > last && t.back() > last &&
                g.coin()) {
                t.push_back(t.back());
                ++m;
                a.max_mult = std::max(a.max_mult, m);
                continue;
            }
            t.push_back(x);
            x += gen_gap(g, style);
            m = 1;
        }
        for (size_t i = 0; i <= O; ++i) {
            t.push_back(x);
            if (!cr) x += gen_gap(g, style);
        }
    } else {
        a.n = (g.coin(1, 6) ? 1 : O + 1) + g.below(cap[D] + 1);
        // ring of n gaps, repeated knots as zero gaps; the last segment and
        // the first are not empty
        std::vector<double> gap(a.n);
        size_t m = 1;
        for (size_t i = 0; i < a.n; ++i) {
            if (rep && i > 0 && i + 1 < a.n && m < O && g.coin(1, 3)) {
                gap[i] = 0;
                ++m;
                a.max_mult = std::max(a.max_mult, m);
            } else {
                gap[i] = gen_gap(g, style);
                m = 1;
            }
        }
        // knots exactly periodic in double: quantise the gaps
        R q = 0x1p-20L;
        for (auto& v : gap) v = static_cast<double>(std::round(v / q) * q);
        std::vector<double> base(a.n + 1);
        base[0] = off;
        for (size_t i = 0; i < a.n; ++i) base[i + 1] = base[i] + gap[i];
        double P = base[a.n] - base[0];
        long N = static_cast<long>(a.n);
        for (long i = -static_cast<long>(O); i <= N + static_cast<long>(O); ++i) {
            long w = i >= 0 ? i / N : -((-i + N - 1) / N);
            t.push_back(base[static_cast<size_t>(i - w * N)] +
                        static_cast<double>(w) * P);
        }
        ctx.label("periodic");
        // powers of two keep the exact periodicity
        scale = std::ldexp(1.0, static_cast<int>(std::log2(scale)));
    }
    for (auto& v : t) v *= scale;
    a.t = t;
    a.hmin = std::numeric_limits<R>::infinity();
    for (size_t i = 0; i + 1 < t.size(); ++i) {
        if (t[i + 1] < t[i]) throw pbt::Discard{};
        if (t[i + 1] > t[i]) a.hmin = std::min(a.hmin, R(t[i + 1]) - R(t[i]));
    }
    a.X = std::max(std::fabs(t.front()), std::fabs(t.back()));
    if (a.max_mult > 1) ctx.label("repeated inner knots");
    return a;
}

void body(Ctx& ctx) {
    auto& reg = bs::registry();
    size_t D = 1 + ctx.g.pick({45, 30, 15, 10});
    std::vector<const bs::Backend*> cand;
    for (auto& b : reg)
        if (b.dim == D) cand.push_back(&b);
    const bs::Backend& b = *cand[ctx.g.below(cand.size())];
    size_t O = b.order;
    std::vector<Ax> ax;
    bs::Desc d;
    size_t total = 1;
    std::string desc = "cfg" + std::to_string(b.cfg) + " D=" +
                       std::to_string(D) + " O=" + std::to_string(O);
    for (size_t i = 0; i < D; ++i) {
        ax.push_back(gen_ax(ctx, O, D));
        d.periodic.push_back(ax[i].per);
        d.knots.push_back(ax[i].t);
        d.n.push_back(ax[i].n);
        total *= ax[i].n;
        desc += std::string(ax[i].per ? " periodic" : " aperiodic") +
                " knots " + show(ax[i].t);
    }
    bool equal = ctx.g.coin(1, 10);
    double cst = ctx.g.uniform(-3, 3);
    d.c.resize(total);
    bool tidy = !ctx.g.coin();
    for (auto& v : d.c)
        v = equal ? cst
            : tidy ? static_cast<double>(ctx.g.range(-8, 8))
                   : ctx.g.uniform(-1, 1);
    if (!equal && ctx.g.coin(1, 6)) {
        std::fill(d.c.begin(), d.c.end(), 0.0);
        d.c[ctx.g.below(total)] = 1;
    }
    int route = static_cast<int>(ctx.g.below(bs::N_ROUTES));
    ctx.describe(desc + " c=" + show(d.c) + " route=" + std::to_string(route));
    ctx.label("D=" + std::to_string(D));
    ctx.label("O=" + std::to_string(O));
    ctx.label(b.cell ? "cell layout" : "plain layout");
    auto s = b.make(d, route);
    if (ctx.g.coin(1, 6)) {
        auto c = s->clone();
        if (ctx.g.coin()) {
            auto m = s->move_out();
            s = std::move(m);
        } else
            s = std::move(c);
    }
    std::string mm = s->describe_mismatch(d);
    if (!mm.empty()) ctx.fail("reported " + mm + " differs from what was given");
    R cmax = 0;
    for (auto v : d.c) cmax = std::max(cmax, R(std::fabs(v)));

    size_t npts = 3 + ctx.g.below(6);
    for (size_t q = 0; q < npts; ++q) {
        std::vector<double> x(D);
        std::vector<size_t> k(D, 0), hint(D);
        std::vector<std::vector<long>> segs(D);
        std::vector<R> y(D);
        bool ders = ctx.g.coin();
        R S = 1;
        for (size_t i = 0; i < D; ++i) {
            const Ax& a = ax[i];
            size_t lo = O, hi = a.t.size() - O - 1;
            double L = a.t[lo], H = a.t[hi];
            switch (ctx.g.pick({40, 30, 15, 15})) {
                case 0: x[i] = L + (H - L) * ctx.g.unit(); break;
                case 1: x[i] = a.t[lo + ctx.g.below(hi - lo + 1)]; break;
                case 2: x[i] = ctx.g.coin() ? L : H; break;
                default:
                    x[i] = nudge(a.t[lo + ctx.g.below(hi - lo + 1)],
                                 static_cast<int>(ctx.g.range(-2, 2)));
            }
            if (a.per) {
                if (ctx.g.coin(1, 3))
                    x[i] += (H - L) * static_cast<double>(ctx.g.range(-5, 5));
            } else {
                x[i] = std::min(H, std::max(L, x[i]));
            }
            if (ders && ctx.g.coin(2, 3)) k[i] = ctx.g.below(O + 2);
            hint[i] = lo + ctx.g.below(hi - lo);
            // acceptable segments
            y[i] = x[i];
            R P = R(H) - R(L), mag = std::max(a.X, std::fabs(R(x[i])));
            R delta = 0;
            if (a.per) {
                R w = std::floor((y[i] - L) / P);
                y[i] -= w * P;
                delta = 16 * EPS * mag;
            }
            S += R(O + 1) * mag / a.hmin;
            for (size_t sg = lo; sg < hi; ++sg) {
                if (!(a.t[sg] < a.t[sg + 1])) continue;
                if (y[i] >= R(a.t[sg]) - delta && y[i] <= R(a.t[sg + 1]) + delta)
                    segs[i].push_back(static_cast<long>(sg));
            }
            if (a.per && y[i] <= R(L) + delta)
                segs[i].push_back(-static_cast<long>(hi));  // far end, below
            if (a.per && y[i] >= R(H) - delta)
                segs[i].push_back(-1);  // near end, from above
        }
        std::string at = "(";
        for (size_t i = 0; i < D; ++i)
            at += (i ? "," : "") + num(x[i]) + "|d" + std::to_string(k[i]);
        at += ")";

        bool plain = true, above = false;
        for (auto v : k) plain &= v == 0, above |= v > O;
        double got = plain && ctx.g.coin(2, 3) ? s->val(x.data())
                                               : s->der(x.data(), k.data());
        double withhint = plain && ctx.g.coin()
                              ? s->val(x.data(), hint.data())
                              : s->der(x.data(), hint.data(), k.data());
        // every candidate combination of segments
        std::vector<std::vector<std::pair<ref::Local, R>>> loc(D);
        for (size_t i = 0; i < D && !above; ++i)
            for (long sg0 : segs[i]) {
                const Ax& a = ax[i];
                R yy = y[i];
                long sg = sg0;
                R P = R(a.t[a.t.size() - O - 1]) - R(a.t[O]);
                if (sg0 == -1) {
                    yy -= P;
                    sg = static_cast<long>(O);
                } else if (sg0 < 0) {
                    yy += P;
                    sg = -sg0 - 1;
                }
                ref::Local l;
                ref::basis(
                    [&a](long j) { return R(a.t[static_cast<size_t>(j)]); }, sg,
                    static_cast<int>(O), static_cast<int>(k[i]), yy, l.v, l.a);
                for (size_t j = 0; j <= O; ++j)
                    l.idx.push_back((static_cast<size_t>(sg) - O + j) % a.n);
                for (auto e : l.a) l.G += e;
                loc[i].push_back({l, 0});
            }
        R best = std::numeric_limits<R>::infinity(), bestv = 0, bestu = 0,
          maxunit = 0;
        if (above) {
            best = std::fabs(R(got));
            bestu = 1e-300L;
        } else {
            std::vector<size_t> ch(D, 0);
            for (;;) {
                R v = 0, u = cmax, lo_c = INFINITY, hi_c = -INFINITY;
                size_t m = 1;
                for (size_t i = 0; i < D; ++i) m *= O + 1;
                for (size_t j = 0; j < m; ++j) {
                    size_t r = j, flat = 0;
                    R w = 1;
                    std::vector<size_t> id(D);
                    for (size_t i = D; i-- > 0;) {
                        id[i] = r % (O + 1);
                        r /= O + 1;
                    }
                    for (size_t i = 0; i < D; ++i) {
                        auto& l = loc[i][ch[i]].first;
                        w *= l.v[id[i]];
                        flat = flat * ax[i].n + l.idx[id[i]];
                    }
                    v += w * R(d.c[flat]);
                    lo_c = std::min(lo_c, R(d.c[flat]));
                    hi_c = std::max(hi_c, R(d.c[flat]));
                }
                for (size_t i = 0; i < D; ++i) u *= loc[i][ch[i]].first.G;
                u *= S * EPS;
                maxunit = std::max(maxunit, u);
                R e = std::fabs(R(got) - v);
                bool hull = !plain || (R(got) >= lo_c - CC * u &&
                                       R(got) <= hi_c + CC * u);
                if (hull && e / (u + 1e-300L) < best / (bestu + 1e-300L)) {
                    best = e;
                    bestv = v;
                    bestu = u;
                }
                size_t i = 0;
                while (i < D && ++ch[i] == loc[i].size()) ch[i++] = 0;
                if (i == D) break;
            }
        }
        ctx.maximum("max err/bound",
                    static_cast<double>(bestu > 1e-290L ? best / bestu : 0));
        if (!(best <= CC * bestu + 1e-290L))
            ctx.fail("at " + at + ": " + num(got) + " instead of " +
                     num(bestv) + ", allowed " +
                     num(static_cast<double>(CC * bestu)));
        if (!(withhint == got) &&
            !(plain && std::fabs(R(withhint) - R(got)) <= CC * maxunit))
            ctx.fail("at " + at + " hints change the result: " + num(withhint) +
                     " instead of " + num(got));
        if (plain && equal && !(std::fabs(R(got) - cst) <= CC * maxunit))
            ctx.fail("equal control points do not give a constant");
        if (s->has_pre() && plain && ctx.g.coin()) {
            double p = s->pre(x.data(), hint.data());
            if (!(std::fabs(R(p) - R(got)) <= CC * maxunit))
                ctx.fail("at " + at + " precomputed coefficients give " +
                         num(p) + " instead of " + num(got));
        }
    }
    if (!equal && total > 1) ctx.nontrivial();
}
}  // namespace

const pbt::Property& pbt::property() {
    static pbt::Property p = {
        "C16",
        "random knot vectors (non-uniform, repeated inner up to the order, "
        "clamped, unclamped, half clamped, periodic), control points, "
        "constructor and configuration; values, derivatives, hints at 3-8 "
        "coordinates (on knots, ends, within ulps, wrapped) against the "
        "Cox-de Boor sum in long double; non-trivial: unequal control points",
        body};
    return p;
}

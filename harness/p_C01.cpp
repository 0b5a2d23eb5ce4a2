#include "large.hpp"
using namespace prop;

static void node(const Grid& g, size_t flat, std::vector<double>& x,
                 std::vector<size_t>& idx) {
    x.resize(g.dim());
    idx.resize(g.dim());
    for (size_t d = g.dim(); d-- > 0;) {
        idx[d] = flat % g.ax[d].n;
        flat /= g.ax[d].n;
        x[d] = g.ax[d].x[idx[d]];
    }
}

static void large(Ctx& ctx) {
    Large l = gen_large(ctx, false);
    const Backend* b = l.b;
    const Grid& gr = l.gr;
    R bound = l.bound;
    Data f = gen_data(ctx.g, std::min<size_t>(gr.size(), 64));
    // repeat the pattern with a long period
    std::vector<double> base = f.f;
    f.f.resize(gr.size());
    R fmax = 0;
    for (size_t i = 0; i < f.f.size(); ++i) {
        f.f[i] = base[(i * 7 + i / base.size()) % base.size()];
        fmax = std::max(fmax, R(std::fabs(f.f[i])));
    }
    ctx.describe("large " + show(*b) + " grid n=" + std::to_string(gr.size()));
    FnPtr fn = b->make(gr, f, static_cast<int>(ctx.g.below(vf::N_ROUTES)));
    std::vector<double> x;
    std::vector<size_t> idx;
    size_t step = std::max<size_t>(1, gr.size() / 3000);
    for (size_t i = 0; i < gr.size(); i += step) {
        node(gr, i, x, idx);
        check_close(ctx, fn->call(x.data(), 0), f.f[i], bound * fmax,
                    "value at node " + at_str(x.data(), nullptr, gr.dim()));
    }
    ctx.nontrivial();
}

static void body(Ctx& ctx) {
    if (ctx.g.coin(1, 60)) return large(ctx);
    Case c = gen_case(ctx);
    FnPtr f = c.b->make(c.grid, c.data, c.route);
    size_t total = c.grid.size();
    std::vector<double> x;
    std::vector<size_t> idx;
    bool useful = false;
    auto check = [&](const double* p, double want, double got,
                     const char* what) {
        R u = c.s.unit(p, nullptr, EPS);
        check_close(ctx, got, want, C * u,
                    std::string(what) + at_str(p, nullptr, c.b->dim));
        useful |= C * u <= INFORMATIVE * c.s.fmax;
    };
    size_t step = total > 300 ? 1 + total / 150 : 1;
    size_t start = step > 1 ? ctx.g.below(step) : 0;
    for (size_t i = start; i < total; i += step) {
        node(c.grid, i, x, idx);
        check(x.data(), c.data.f[i], f->call(x.data(), 0), "value at node ");
        check(x.data(), c.data.f[i], f->at(x.data(), 2),
              "checked value at node ");
    }
    // a few nodes through the other syntaxes, and around the ring
    for (int r = 0; r < 4; ++r) {
        size_t i = ctx.g.below(total);
        node(c.grid, i, x, idx);
        for (size_t d = 0; d < c.b->dim; ++d)
            if (c.grid.ax[d].periodic && ctx.g.coin(2, 3)) {
                const Axis& a = c.grid.ax[d];
                long w = ctx.g.coin() ? 1 : ctx.g.range(-4, 4);
                if (w == 1 && idx[d] == 0)
                    x[d] = a.x.back();
                else
                    x[d] += static_cast<double>(w) * (a.x.back() - a.x[0]);
                ctx.label("node in another period");
            }
        double v = 0;
        std::vector<size_t> k(c.b->dim, 0);
        switch (ctx.g.below(4)) {
            case 0: v = f->call(x.data(), 1); break;
            case 1: v = f->at(x.data(), 0); break;
            case 2: v = f->spl(x.data()); break;
            default: v = f->der(x.data(), k.data(),
                                static_cast<int>(ctx.g.below(3)));
        }
        check(x.data(), c.data.f[i], v, "value at node ");
    }
    // dummy values have no influence
    bool per = false;
    for (auto& a : c.grid.ax) per |= a.periodic;
    if (per && !c.b->no_dummy) {
        Data o = c.data;
        o.junk = std::isnan(o.junk) ? 123.5 : std::nan("");
        FnPtr h = c.b->make(c.grid, o, c.route);
        for (int r = 0; r < 3; ++r) {
            auto y = gen_coords(ctx.g, c.grid, c.s);
            double v = f->call(y.data(), 0), w = h->call(y.data(), 0);
            R u = c.s.unit(y.data(), nullptr, EPS);
            check_close(ctx, w, v, C * u, "value with other dummy data");
        }
        ctx.label("dummy point varied");
    }
    if (useful) mark_nontrivial(ctx, c);
}

const pbt::Property& pbt::property() {
    static pbt::Property p = {
        "C01",
        "random backend, grid, data and constructor; the function is evaluated "
        "at every node (at most ~150 of very large grids) and at nodes shifted "
        "by whole periods and compared with the data; 1 case in 60 uses a large "
        "grid (up to 1500 points per axis); non-trivial: data not constant and "
        "error bound below 1e-4 of the data",
        body};
    return p;
}

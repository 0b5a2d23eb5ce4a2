#include "common.hpp"
using namespace prop;

static void body(Ctx& ctx) {
    auto pred = [](const Backend& b) { return b.cell; };
    Case c = gen_case(ctx, GridOpt(), -1, pred);
    size_t D = c.b->dim;
    TplPtr t = c.b->make_tpl(c.grid, c.route);
    if (!t->has_proxy()) ctx.discard();
    struct F {
        FnPtr f;
        Spline s;
    };
    struct P {
        Proxy p;
        std::vector<double> x;
    };
    std::vector<F> fs;
    std::vector<P> ps;
    auto add_fn = [&] {
        F f;
        Data d = fs.empty() ? c.data : gen_data(ctx.g, c.grid.size());
        f.s = c.s;
        f.s.load(d.f);
        switch (ctx.g.below(3)) {
            case 0: f.f = t->interpolate(d, static_cast<int>(ctx.g.below(4))); break;
            case 1:
                f.f = c.b->make_empty();
                t->interpolate_into(*f.f, d, static_cast<int>(ctx.g.below(4)));
                break;
            default:
                f.f = t->clone()->interpolate_rvalue(
                    d, static_cast<int>(ctx.g.below(4)));
        }
        fs.push_back(std::move(f));
    };
    auto add_proxy = [&] {
        P p;
        p.x = gen_coords(ctx.g, c.grid, c.s);
        p.p = t->proxy(p.x.data(), static_cast<int>(ctx.g.below(2)));
        if (ctx.g.coin()) {
            Proxy copy = p.p;
            p.p = Proxy();
            p.p = copy;
        }
        ps.push_back(p);
    };
    size_t ops = 3 + ctx.g.below(8);
    for (size_t i = 0; i < ops; ++i) ctx.g.coin(2, 3) ? add_proxy() : add_fn();
    if (fs.empty()) add_fn();
    if (ps.empty()) add_proxy();
    bool gone = ctx.g.coin(1, 3);
    if (gone) {
        t.reset();
        ctx.label("template destroyed first");
    }
    bool useful = false;
    for (auto& p : ps)
        for (auto& f : fs) {
            double v = p.p(*f.f), w = f.f->call(p.x.data(), 0);
            if (!(v == w)) {
                R u = f.s.unit(p.x.data(), nullptr, EPS);
                if (c.b->order == 0 && near_jump(f.s, p.x.data(), nullptr)) {
                    check_value(ctx, f.s, v, p.x.data(), nullptr, "proxy");
                } else
                    check_close(ctx, v, w, C * u,
                                "proxy at " +
                                    at_str(p.x.data(), nullptr, D));
            }
            // and neither is wrong in the same way
            useful |= check_value(ctx, f.s, v, p.x.data(), nullptr, "proxy");
        }
    if (useful) mark_nontrivial(ctx, c);
}

const pbt::Property& pbt::property() {
    static pbt::Property p = {
        "C10",
        "random cell-layout backend, template, and an interleaved sequence of "
        "3-10 proxy and function creations; every proxy applied to every "
        "function is compared with direct evaluation and the reference, "
        "sometimes after copying the proxy and destroying the template; "
        "non-trivial: data not constant and an informative bound",
        body};
    return p;
}

// The same function through every build of the library.
#include <iostream>

#include "common.hpp"
using namespace prop;

// configurations 2k and 2k+1 (k >= 10) differ by INTP_MULTITHREAD only
static void body(Ctx& ctx) {
    // debug and trace builds write to standard output
    std::cout.setstate(std::ios::failbit);
    Gen& g = ctx.g;
    const Backend* pick = gen_backend(g);
    Case c;
    c.b = pick;
    GridOpt go;
    c.grid = gen_grid(g, pick->dim, pick->order, go);
    maybe_default_range(g, c.grid);
    c.data = gen_data(g, c.grid.size());
    c.route = static_cast<int>(g.below(vf::N_ROUTES));
    ctx.describe(c.show_case());
    c.s = Spline(c.grid, static_cast<int>(pick->order), c.data.f);
    if (!c.s.ok) ctx.discard();
    label_grid(ctx, *pick, c.grid);
    std::vector<const Backend*> bs;
    for (auto& b : vf::registry())
        if (b.dim == pick->dim && b.order == pick->order) bs.push_back(&b);
    // all of them sometimes, otherwise a few and their partners
    bool all = g.coin(1, 4);
    std::vector<const Backend*> use;
    std::vector<char> in(bs.size(), all);
    if (!all)
        for (int i = 0; i < 3; ++i) in[g.below(bs.size())] = 1;
    for (size_t i = 0; i < bs.size(); ++i)
        for (size_t j = 0; j < bs.size(); ++j)
            if (in[i] && bs[i]->cfg / 2 == bs[j]->cfg / 2) in[j] |= 2;
    for (size_t i = 0; i < bs.size(); ++i)
        if (in[i]) use.push_back(bs[i]);
    struct Probe {
        std::vector<double> x;
        std::vector<size_t> k;
        int how;
    };
    std::vector<Probe> ps(2 + g.below(5));
    for (auto& p : ps) {
        p.x = gen_coords(g, c.grid, c.s);
        p.k = gen_orders(g, pick->dim, pick->order);
        p.how = static_cast<int>(g.below(6));
    }
    bool via_tpl = g.coin(1, 3);
    // the template used may be a copy, or have held another grid before
    int via = via_tpl ? static_cast<int>(g.pick({3, 1, 1, 1, 1})) : 0;
    Grid other = c.grid;
    if (via >= 3) {
        for (auto& a : other.ax)
            if (g.coin()) a = gen_axis(g, pick->order, pick->dim, go);
    }
    std::map<int, std::vector<double>> res;
    bool useful = false;
    for (auto* b : use) {
        FnPtr f;
        TplPtr t;
        if (via_tpl) {
            t = b->make_tpl(c.grid, c.route % 6);
            if (via == 1) t = t->clone();
            if (via == 2) t = t->move_out();
            if (via >= 3) {
                TplPtr u = b->make_tpl(other, 0);
                if (via == 3)
                    u->assign(*t);
                else
                    u->assign_move(*t);
                t = std::move(u);
            }
            f = t->interpolate(c.data, c.route % 4);
        } else
            f = b->make(c.grid, c.data, c.route);
        std::vector<double>& r = res[b->cfg];
        std::string who = show(*b) + ": ";
        for (auto& p : ps) {
            double v = f->call(p.x.data(), p.how & 1);
            double d = f->der(p.x.data(), p.k.data(), p.how % 3);
            r.push_back(v);
            r.push_back(d);
            useful |= check_value(ctx, c.s, v, p.x.data(), nullptr, (who + "value").c_str());
            check_value(ctx, c.s, d, p.x.data(), p.k.data(), (who + "derivative").c_str());
            if (t && t->has_proxy())
                check_value(ctx, c.s, t->proxy(p.x.data(), p.how & 1)(*f), p.x.data(), nullptr,
                            (who + "proxy").c_str());
        }
        for (size_t d = 0; d < b->dim; ++d) {
            if (f->periodic(d) != c.grid.ax[d].periodic || f->uniform(d) != c.grid.ax[d].uniform)
                ctx.fail(who + "flags");
            r.push_back(f->range(d).first);
            r.push_back(f->range(d).second);
        }
    }
    for (auto& kv : res) {
        if (kv.first % 2 == 0) continue;
        auto it = res.find(kv.first - 1);
        if (it == res.end()) continue;
        ctx.label("multithreaded/sequential pair");
        for (size_t i = 0; i < kv.second.size(); ++i)
            if (!(kv.second[i] == it->second[i] ||
                  (kv.second[i] != kv.second[i] && it->second[i] != it->second[i])))
                ctx.fail("multithreaded build " + std::to_string(kv.first) + ": result " +
                         std::to_string(i) + " is " + num(kv.second[i]) + ", sequential " +
                         num(it->second[i]));
    }
    ctx.label("builds compared: " + std::to_string(use.size()));
    if (useful && use.size() >= 2) mark_nontrivial(ctx, c);
}

const pbt::Property& pbt::property() {
    static pbt::Property p = {
        "C11",
        "a random grid, data, constructor (or template) and 2-6 coordinates "
        "with derivative orders are evaluated in 4-16 of the builds (language "
        "standard x macros x compiler, listed in the assumptions); every build "
        "is compared with the reference spline, multithreaded builds must equal "
        "their sequential partner bit for bit; non-trivial: data not constant, "
        "at least two builds and an informative coordinate",
        body};
    return p;
}

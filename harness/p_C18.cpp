// Assertion builds: faulty coordinate lists are rejected, valid input gives
// exactly what the build without assertions gives (partner configuration).
#include <iostream>

#include "common.hpp"
using namespace prop;

static void body(Ctx& ctx) {
    std::cout.setstate(std::ios::failbit);  // debug builds write to it
    Gen& g = ctx.g;
    const Backend* b = gen_backend(g, -1, [](const Backend& x) { return x.cfg % 2 == 1; });
    const Backend* plain = vf::find_backend(b->cfg - 1, b->dim, b->order);
    GridOpt go;
    Grid grid = gen_grid(g, b->dim, b->order, go);
    size_t D = b->dim;
    bool any = false;
    for (auto& a : grid.ax) any |= !a.uniform;
    bool fault = any && g.coin(3, 4);
    if (!fault) maybe_default_range(g, grid);
    Data data = gen_data(g, grid.size());
    int route = static_cast<int>(g.below(vf::N_ROUTES));
    bool tpl = g.coin(1, 3);
    std::string how;
    if (fault) {
        std::vector<size_t> cand;
        for (size_t d = 0; d < D; ++d)
            if (!grid.ax[d].uniform) cand.push_back(d);
        size_t d = cand[g.below(cand.size())];
        auto& x = grid.ax[d].x;
        size_t kind = g.pick({20, 20, 15, 10, 10, 15, 15});
        // position of the fault, the ends more often
        auto place = [&](size_t n) {
            switch (g.pick({60, 20, 20})) {
                case 1: return size_t(0);
                case 2: return n - 1;
                default: return size_t(g.below(n));
            }
        };
        size_t i = place(x.size() - 1);
        switch (kind) {
            case 0: x[i + 1] = x[i]; how = "repeats"; break;
            case 1: std::swap(x[i], x[i + 1]); how = "swapped"; break;
            case 2: x[i + 1] = nudge(x[i], -1 - static_cast<int>(g.below(3))); how = "decreases by ulps"; break;
            case 3: x[i + (g.coin() ? 1 : 0)] = std::numeric_limits<double>::quiet_NaN(); how = "NaN"; break;
            case 4: std::reverse(x.begin(), x.end()); how = "reversed"; break;
            case 5: {
                // enough coordinates are left for any reader
                size_t k = 1 + g.below(2);
                if (x.size() < k + 2) k = x.size() - 2;
                if (k == 0 || x.size() - k < 2) ctx.discard();
                x.resize(x.size() - k);
                how = "short by " + std::to_string(k);
                break;
            }
            default: {
                size_t k = 1 + g.below(3);
                for (size_t j = 0; j < k; ++j) x.push_back(x.back() + (x[1] - x[0]));
                how = "long by " + std::to_string(k);
            }
        }
        how = "axis " + std::to_string(d) + " " + how + " at " + std::to_string(i);
        ctx.label("fault: " + how.substr(7, how.find(" at") - 7));
    }
    ctx.describe(show(*b) + " route=" + std::to_string(route) + (tpl ? " template" : "") + " grid " + show(grid) +
                 " " + how);
    label_grid(ctx, *b, grid);
    if (fault) {
        bool thrown = false;
        try {
            if (tpl)
                b->make_tpl(grid, route % 6);
            else
                b->make(grid, data, route);
        } catch (const std::runtime_error& e) {
            thrown = true;
        } catch (const std::exception& e) {
            ctx.fail(std::string("invalid input gave another exception: ") + e.what());
        }
        if (!thrown) ctx.fail("invalid coordinates were accepted");
        ctx.nontrivial();
        return;
    }
    FnPtr f, p;
    TplPtr t, u;
    try {
        if (tpl) {
            t = b->make_tpl(grid, route % 6);
            f = t->interpolate(data, route % 4);
        } else
            f = b->make(grid, data, route);
    } catch (const std::exception& e) {
        ctx.fail(std::string("valid input was rejected: ") + e.what());
    }
    if (tpl) {
        u = plain->make_tpl(grid, route % 6);
        p = u->interpolate(data, route % 4);
    } else
        p = plain->make(grid, data, route);
    Spline s(grid, static_cast<int>(b->order));
    size_t nc = 2 + g.below(6);
    for (size_t i = 0; i < nc; ++i) {
        auto x = gen_coords(g, grid, s);
        auto k = gen_orders(g, D, b->order);
        double v[4];
        try {
            v[0] = f->call(x.data(), int(i & 1));
            v[1] = f->der(x.data(), k.data(), int(i % 3));
            v[2] = t && t->has_proxy() ? t->proxy(x.data(), int(i & 1))(*f) : 0;
            v[3] = f->spl(x.data());
        } catch (const std::exception& e) {
            ctx.fail("valid evaluation at " + at_str(x.data(), k.data(), D) + " was rejected: " + e.what());
        }
        double w[4];
        w[0] = p->call(x.data(), int(i & 1));
        w[1] = p->der(x.data(), k.data(), int(i % 3));
        w[2] = u && u->has_proxy() ? u->proxy(x.data(), int(i & 1))(*p) : 0;
        w[3] = p->spl(x.data());
        for (int j = 0; j < 4; ++j)
            if (!(v[j] == w[j] || (v[j] != v[j] && w[j] != w[j])))
                ctx.fail("result at " + at_str(x.data(), k.data(), D) + " is " + num(v[j]) + ", without assertions " +
                         num(w[j]));
    }
    ctx.label("valid input");
    ctx.nontrivial();
}

const pbt::Property& pbt::property() {
    static pbt::Property p = {
        "C18",
        "a random grid and data in a build with assertions (or debug or trace "
        "output): one fault (repeated, swapped, ulp-decreasing, NaN, reversed, "
        "missing or surplus coordinate) at a random position of a random list "
        "must give std::runtime_error from a random constructor or template; "
        "without a fault all results must equal bit for bit those of the same "
        "build without assertions; every case is non-trivial",
        body};
    return p;
}

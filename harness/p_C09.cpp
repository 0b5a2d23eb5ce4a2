#include "common.hpp"
using namespace prop;

// What we know about an object
struct TplState {
    TplPtr t;
    int grid = -1;  // -1: moved from, only assignable or destructible
};
struct Snap {
    std::vector<double> x;
    std::vector<size_t> k;
    double v;
};
struct FnState {
    FnPtr f;
    int grid = -1, data = -1;
    std::vector<Snap> snaps;
};

struct World {
    Ctx& ctx;
    const Backend* b;
    std::vector<Grid> grids;
    std::vector<std::vector<Data>> data;
    std::vector<std::vector<Spline>> refs;
    std::vector<TplState> tpl;
    std::vector<FnState> fn;
    std::string log;
    explicit World(Ctx& c) : ctx(c), b(nullptr) {}

    void note(const std::string& s) {
        log += s + "; ";
        ctx.describe(log);
    }
    // compare with the reference and remember exact results
    void fresh(FnState& s) {
        s.snaps.clear();
        const Spline& r = refs[size_t(s.grid)][size_t(s.data)];
        for (int i = 0; i < 3; ++i) {
            Snap p;
            p.x = gen_coords(ctx.g, grids[size_t(s.grid)], r);
            p.k.assign(b->dim, 0);
            if (ctx.g.coin(1, 3)) p.k = gen_orders(ctx.g, b->dim, b->order, false);
            p.v = s.f->der(p.x.data(), p.k.data(), 0);
            check_value(ctx, r, p.v, p.x.data(), p.k.data(), "result");
            check_value(ctx, r, s.f->call(p.x.data(), 0), p.x.data(), nullptr,
                        "result");
            s.snaps.push_back(p);
        }
        for (size_t d = 0; d < b->dim; ++d) {
            const Axis& a = grids[size_t(s.grid)].ax[d];
            if (s.f->periodic(d) != a.periodic || s.f->uniform(d) != a.uniform)
                ctx.fail("flags do not match the grid");
            if (!a.periodic && (s.f->range(d).first != a.x.front() ||
                                s.f->range(d).second != a.x.back()))
                ctx.fail("range does not match the grid");
        }
    }
    void unchanged(FnState& s) {
        if (s.grid < 0) return;
        for (auto& p : s.snaps) {
            double v = s.f->der(p.x.data(), p.k.data(), 0);
            if (!(v == p.v))
                ctx.fail("function changed at " +
                         at_str(p.x.data(), p.k.data(), b->dim) + ": was " +
                         num(p.v) + ", now " + num(v));
        }
    }
};

static void body(Ctx& ctx) {
    Gen& g = ctx.g;
    World w(ctx);
    w.b = gen_backend(g);
    size_t D = w.b->dim, O = w.b->order;
    GridOpt go;
    go.big = false;
    go.mild = true;
    size_t ng = 2 + g.below(2);
    for (size_t i = 0; i < ng; ++i) {
        w.grids.push_back(i > 0 && g.coin(2, 3)
                              ? sibling_grid(g, w.grids[g.below(i)], O, go)
                              : gen_grid(g, D, O, go));
        std::vector<Data> ds;
        std::vector<Spline> rs;
        Spline base(w.grids[i], static_cast<int>(O));
        if (!base.ok) ctx.discard();
        for (int j = 0; j < 3; ++j) {
            ds.push_back(gen_data(g, w.grids[i].size()));
            rs.push_back(base);
            rs.back().load(ds.back().f);
        }
        w.data.push_back(ds);
        w.refs.push_back(rs);
    }
    w.log = show(*w.b) + " ";
    for (size_t i = 0; i < ng; ++i)
        w.log += "G" + std::to_string(i) + "=" + show(w.grids[i]) + " ";
    size_t ops = 4 + g.below(24);
    size_t interps = 0, moves = 0;
    auto live_tpl = [&](bool need_valid) -> int {
        std::vector<int> c;
        for (size_t i = 0; i < w.tpl.size(); ++i)
            if (!need_valid || w.tpl[i].grid >= 0) c.push_back(int(i));
        return c.empty() ? -1 : c[g.below(c.size())];
    };
    auto live_fn = [&](bool need_valid) -> int {
        std::vector<int> c;
        for (size_t i = 0; i < w.fn.size(); ++i)
            if (!need_valid || w.fn[i].grid >= 0) c.push_back(int(i));
        return c.empty() ? -1 : c[g.below(c.size())];
    };
    auto S = [](long i) { return std::to_string(i); };
    for (size_t o = 0; o < ops; ++o) {
        size_t op = g.pick({12, 14, 8, 12, 5, 5, 5, 5, 3, 6, 5, 6, 6, 3, 5, 3, 6});
        // most operations need a template or function to start from
        bool any_t = false, any_f = false;
        for (auto& t : w.tpl) any_t |= t.grid >= 0;
        for (auto& f : w.fn) any_f |= f.grid >= 0;
        if (op >= 1 && op <= 7 && !any_t) op = 0;
        if (op >= 9 && op <= 14 && !any_f) op = any_t ? 1 : 0;
        switch (op) {
            case 0: {  // new template
                int gi = int(g.below(ng));
                TplState t;
                t.grid = gi;
                t.t = w.b->make_tpl(w.grids[size_t(gi)],
                                    static_cast<int>(g.below(6)));
                w.tpl.push_back(std::move(t));
                w.note("T" + S(long(w.tpl.size()) - 1) + "=tpl(G" + S(gi) + ")");
                break;
            }
            case 1: {  // interpolate, template kept
                int i = live_tpl(true);
                if (i < 0) break;
                int di = int(g.below(3));
                FnState f;
                f.grid = w.tpl[size_t(i)].grid;
                f.data = di;
                w.note("F" + S(long(w.fn.size())) + "=T" + S(i) + "(d" + S(di) + ")");
                f.f = w.tpl[size_t(i)].t->interpolate(
                    w.data[size_t(f.grid)][size_t(di)],
                    static_cast<int>(g.below(4)));
                w.fresh(f);
                w.fn.push_back(std::move(f));
                ++interps;
                break;
            }
            case 2: {  // interpolate, template consumed
                int i = live_tpl(true);
                if (i < 0) break;
                int di = int(g.below(3));
                FnState f;
                f.grid = w.tpl[size_t(i)].grid;
                f.data = di;
                w.note("F" + S(long(w.fn.size())) + "=move(T" + S(i) + ")(d" + S(di) + ")");
                f.f = w.tpl[size_t(i)].t->interpolate_rvalue(
                    w.data[size_t(f.grid)][size_t(di)],
                    static_cast<int>(g.below(4)));
                w.tpl[size_t(i)].grid = -1;
                w.fresh(f);
                w.fn.push_back(std::move(f));
                ++interps;
                ++moves;
                break;
            }
            case 3: {  // interpolate into an existing function of any shape
                int i = live_tpl(true), j = live_fn(false);
                if (i < 0) break;
                if (j < 0) {
                    FnState e;
                    e.f = w.b->make_empty();
                    w.fn.push_back(std::move(e));
                    j = int(w.fn.size()) - 1;
                    w.note("F" + S(j) + "=empty");
                }
                int di = int(g.below(3));
                FnState& f = w.fn[size_t(j)];
                w.note("T" + S(i) + ".into(F" + S(j) + ",d" + S(di) + ")");
                w.tpl[size_t(i)].t->interpolate_into(
                    *f.f, w.data[size_t(w.tpl[size_t(i)].grid)][size_t(di)],
                    static_cast<int>(g.below(4)));
                f.grid = w.tpl[size_t(i)].grid;
                f.data = di;
                w.fresh(f);
                ++interps;
                break;
            }
            case 4: {
                int i = live_tpl(true);
                if (i < 0) break;
                TplState t;
                t.grid = w.tpl[size_t(i)].grid;
                t.t = w.tpl[size_t(i)].t->clone();
                w.tpl.push_back(std::move(t));
                w.note("T" + S(long(w.tpl.size()) - 1) + "=copy(T" + S(i) + ")");
                break;
            }
            case 5: {
                int i = live_tpl(true);
                if (i < 0) break;
                TplState t;
                t.grid = w.tpl[size_t(i)].grid;
                t.t = w.tpl[size_t(i)].t->move_out();
                w.tpl[size_t(i)].grid = -1;
                w.tpl.push_back(std::move(t));
                ++moves;
                w.note("T" + S(long(w.tpl.size()) - 1) + "=move(T" + S(i) + ")");
                break;
            }
            case 6: {
                int i = live_tpl(true), j = live_tpl(false);
                if (i < 0) break;  // (self-assignment included)
                w.tpl[size_t(j)].t->assign(*w.tpl[size_t(i)].t);
                w.tpl[size_t(j)].grid = w.tpl[size_t(i)].grid;
                w.note("T" + S(j) + "=T" + S(i));
                break;
            }
            case 7: {
                int i = live_tpl(true), j = live_tpl(false);
                if (i < 0 || i == j) break;
                if (w.tpl[size_t(j)].grid >= 0 && g.coin(1, 3)) {
                    w.tpl[size_t(j)].t->swap(*w.tpl[size_t(i)].t);
                    std::swap(w.tpl[size_t(j)].grid, w.tpl[size_t(i)].grid);
                    w.note("swap(T" + S(j) + ",T" + S(i) + ")");
                    break;
                }
                w.tpl[size_t(j)].t->assign_move(*w.tpl[size_t(i)].t);
                w.tpl[size_t(j)].grid = w.tpl[size_t(i)].grid;
                w.tpl[size_t(i)].grid = -1;
                ++moves;
                w.note("T" + S(j) + "=move(T" + S(i) + ")");
                break;
            }
            case 8: {
                int i = live_tpl(false);
                if (i < 0) break;
                w.tpl.erase(w.tpl.begin() + i);
                w.note("destroy T" + S(i));
                break;
            }
            case 9: {
                int i = live_fn(true);
                if (i < 0) break;
                FnState f;
                f.grid = w.fn[size_t(i)].grid;
                f.data = w.fn[size_t(i)].data;
                f.f = w.fn[size_t(i)].f->clone();
                f.snaps = w.fn[size_t(i)].snaps;
                w.note("F" + S(long(w.fn.size())) + "=copy(F" + S(i) + ")");
                w.unchanged(f);
                w.fn.push_back(std::move(f));
                break;
            }
            case 10: {
                int i = live_fn(true);
                if (i < 0) break;
                FnState f;
                f.grid = w.fn[size_t(i)].grid;
                f.data = w.fn[size_t(i)].data;
                f.f = w.fn[size_t(i)].f->move_out();
                f.snaps = w.fn[size_t(i)].snaps;
                w.fn[size_t(i)].grid = -1;
                w.note("F" + S(long(w.fn.size())) + "=move(F" + S(i) + ")");
                w.unchanged(f);
                ++moves;
                w.fn.push_back(std::move(f));
                break;
            }
            case 11:
            case 12: {
                int i = live_fn(true), j = live_fn(false);
                if (i < 0 || i == j) break;
                FnState &a = w.fn[size_t(i)], &c = w.fn[size_t(j)];
                if (op == 11)
                    c.f->assign(*a.f);
                else
                    c.f->assign_move(*a.f);
                c.grid = a.grid;
                c.data = a.data;
                c.snaps = a.snaps;
                if (op == 12) a.grid = -1, ++moves;
                w.note("F" + S(j) + (op == 11 ? "=F" : "=move F") + S(i));
                w.unchanged(c);
                break;
            }
            case 13: {
                int i = live_fn(true);
                if (i < 0) break;
                w.fn[size_t(i)].f->self_assign();
                w.note("F" + S(i) + "=F" + S(i));
                w.unchanged(w.fn[size_t(i)]);
                break;
            }
            case 14: {
                int i = live_fn(true), j = live_fn(true);
                if (i < 0 || i == j) break;
                FnState &a = w.fn[size_t(i)], &c = w.fn[size_t(j)];
                a.f->swap(*c.f);
                std::swap(a.grid, c.grid);
                std::swap(a.data, c.data);
                std::swap(a.snaps, c.snaps);
                w.note("swap F" + S(i) + " F" + S(j));
                break;
            }
            case 15: {
                int i = live_fn(false);
                if (i < 0) break;
                w.fn.erase(w.fn.begin() + i);
                w.note("destroy F" + S(i));
                break;
            }
            default: {  // direct construction, for functions of mixed origin
                int gi = int(g.below(ng)), di = int(g.below(3));
                FnState f;
                f.grid = gi;
                f.data = di;
                w.note("F" + S(long(w.fn.size())) + "=fn(G" + S(gi) + ",d" + S(di) + ")");
                f.f = w.b->make(w.grids[size_t(gi)],
                                w.data[size_t(gi)][size_t(di)],
                                static_cast<int>(g.below(vf::N_ROUTES)));
                w.fresh(f);
                w.fn.push_back(std::move(f));
            }
        }
        if (g.coin(1, 3))
            for (auto& s : w.fn) w.unchanged(s);
        if (w.fn.size() > 10) {
            w.fn.erase(w.fn.begin());
            w.note("destroy F0");
        }
    }
    // the functions outlive the templates
    if (g.coin()) {
        w.tpl.clear();
        w.note("destroy templates");
    }
    for (auto& s : w.fn) {
        w.unchanged(s);
        if (s.grid >= 0) w.fresh(s);
    }
    label_grid(ctx, *w.b, w.grids[0]);
    if (moves) ctx.label("history with moves");
    if (interps >= 2) ctx.nontrivial();
}

const pbt::Property& pbt::property() {
    static pbt::Property p = {
        "C09",
        "random history of 4-27 operations (create, interpolate from lvalue, "
        "rvalue or into an existing function, copy, move, assign, self-assign, "
        "swap, destroy) over templates and functions on 2-3 (often similar) grids; "
        "every produced function is compared with the reference and its exact "
        "results must not change afterwards; non-trivial: at least two "
        "interpolations by templates in the history",
        body};
    return p;
}

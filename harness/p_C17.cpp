// Histories of valid API uses without an oracle for the results: the verdict
// is the sanitizers' (bounds, lifetime, undefined behaviour, leaks), or, with
// -DFILL, that results do not depend on what memory held before.
#include "common.hpp"
#ifdef FILL
#include <malloc.h>
#endif
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/lsan_interface.h>
#define HAVE_LSAN
#endif
#endif
using namespace prop;

// any finite coordinate
static double wild(Gen& g, const Axis& a, const ref::RefAxis& ra) {
    double lo = a.x.front(), hi = a.x.back(), len = hi - lo;
    switch (g.pick({50, 10, 10, 10, 10, 5, 5})) {
        case 0: return gen_coord(g, a, ra, CoordOpt());
        case 1: {  // around whole periods / lengths
            double w = static_cast<double>(g.range(-1000000, 1000000));
            return nudge(lo + w * len, static_cast<int>(g.range(-2, 2)));
        }
        case 2: return lo + len * std::ldexp(g.unit() - .5, static_cast<int>(g.range(0, 80)));
        case 3: {
            double v = std::ldexp(1 + g.unit(), static_cast<int>(g.range(-1074, 1022)));
            return g.coin() ? v : -v;
        }
        case 4: return nudge(g.coin() ? lo : hi, static_cast<int>(g.range(-4, 4)));
        case 5: {
            static const double s[] = {0.0, -0.0, 1.7976931348623157e308, -1.7976931348623157e308,
                                       5e-324, -5e-324, 2.2250738585072014e-308, 1.8446744073709552e19,
                                       9.2233720368547758e18, -9.2233720368547758e18, 4294967296.0};
            return s[g.below(sizeof s / sizeof *s)];
        }
        default: return lo + len * (g.coin() ? 1 : -1) * std::pow(10.0, static_cast<double>(g.range(0, 300)));
    }
}

struct Sink {
    std::vector<double> v;
    void add(double x) { v.push_back(x); }
};

#ifdef FILL
__attribute__((noinline)) static void dirty_stack(int byte) {
    volatile char buf[1 << 15];
    for (size_t i = 0; i < sizeof buf; ++i) buf[i] = static_cast<char>(byte);
}
#else
static void dirty_stack(int) {}
#endif

struct Step {
    int op, a, b, grid, data, how;
    std::vector<double> x;
    std::vector<size_t> k;
};

struct Plan {
    const Backend* b;
    std::vector<Grid> grids;
    std::vector<std::vector<Data>> data;
    std::vector<Step> steps;
};

// executes the plan; whatever is invalid at that point is skipped
static Sink execute(const Plan& p, int byte, std::string* log) {
    Sink out;
    std::vector<std::pair<TplPtr, int>> T;
    std::vector<std::pair<FnPtr, int>> F;
    std::vector<std::pair<Proxy, int>> P;
    auto S = [](long i) { return std::to_string(i); };
    size_t D = p.b->dim;
    for (auto& s : p.steps) {
        auto pickT = [&]() -> std::pair<TplPtr, int>* {
            if (T.empty()) return nullptr;
            auto* r = &T[size_t(s.a) % T.size()];
            return r->second < 0 ? nullptr : r;
        };
        auto pickF = [&](int i) -> std::pair<FnPtr, int>* {
            if (F.empty()) return nullptr;
            auto* r = &F[size_t(i) % F.size()];
            return r->second < 0 ? nullptr : r;
        };
        dirty_stack(byte);
        auto note = [&](const std::string& m) {
            if (log) *log += m + "; ";
        };
        switch (s.op) {
            case 0:
                note("tpl(G" + S(s.grid) + ")");
                T.emplace_back(p.b->make_tpl(p.grids[size_t(s.grid)], s.how % 6), s.grid);
                break;
            case 1:
                note("fn(G" + S(s.grid) + ")");
                F.emplace_back(p.b->make(p.grids[size_t(s.grid)],
                                         p.data[size_t(s.grid)][size_t(s.data)],
                                         s.how % vf::N_ROUTES), s.grid);
                break;
            case 2:
                if (auto* t = pickT()) {
                    note("interpolate");
                    F.emplace_back(t->first->interpolate(
                        p.data[size_t(t->second)][size_t(s.data)], s.how % 4), t->second);
                }
                break;
            case 3:
                if (auto* t = pickT()) {
                    note("interpolate&&");
                    F.emplace_back(t->first->interpolate_rvalue(
                        p.data[size_t(t->second)][size_t(s.data)], s.how % 4), t->second);
                    t->second = -1;
                }
                break;
            case 4:
                if (auto* t = pickT()) {
                    if (F.empty()) F.emplace_back(p.b->make_empty(), -1);
                    auto& f = F[size_t(s.b) % F.size()];
                    note("interpolate_into");
                    t->first->interpolate_into(*f.first,
                                               p.data[size_t(t->second)][size_t(s.data)], s.how % 4);
                    f.second = t->second;
                }
                break;
            case 5:
                if (auto* t = pickT()) {
                    note("copy/move tpl");
                    if (s.how & 1) {
                        auto c = t->first->clone();
                        int g = t->second;
                        T.emplace_back(std::move(c), g);
                    } else {
                        auto c = t->first->move_out();
                        int g = t->second;
                        t->second = -1;
                        T.emplace_back(std::move(c), g);
                    }
                }
                break;
            case 6:
                if (auto* t = pickT()) {
                    auto& u = T[size_t(s.b) % T.size()];
                    if (&u == t && !(s.how & 1)) break;
                    note("assign tpl");
                    if (s.how & 1)
                        u.first->assign(*t->first);
                    else
                        u.first->assign_move(*t->first);
                    u.second = t->second;
                    if (!(s.how & 1)) t->second = -1;
                }
                break;
            case 7:
                if (auto* f = pickF(s.a)) {
                    note("copy/move fn");
                    FnPtr c = s.how & 1 ? f->first->clone() : f->first->move_out();
                    int g = f->second;
                    if (!(s.how & 1)) f->second = -1;
                    F.emplace_back(std::move(c), g);
                }
                break;
            case 8:
                if (auto* f = pickF(s.a)) {
                    auto& u = F[size_t(s.b) % F.size()];
                    note("assign fn");
                    if (&u == f) {
                        f->first->self_assign();
                    } else if (s.how % 3 == 0) {
                        u.first->assign(*f->first);
                        u.second = f->second;
                    } else if (s.how % 3 == 1) {
                        u.first->assign_move(*f->first);
                        u.second = f->second;
                        f->second = -1;
                    } else if (u.second >= 0) {
                        u.first->swap(*f->first);
                        std::swap(u.second, f->second);
                    }
                }
                break;
            case 9:
                note("destroy");
                if (s.how & 1) {
                    if (!T.empty()) T.erase(T.begin() + long(size_t(s.a) % T.size()));
                } else if (!F.empty())
                    F.erase(F.begin() + long(size_t(s.a) % F.size()));
                break;
            case 10: {
                // proxies belong to a grid
                auto* t = pickT();
                if (t && t->first->has_proxy()) {
                    note("proxy" + at_str(s.x.data(), nullptr, D));
                    P.emplace_back(t->first->proxy(s.x.data(), s.how & 1), t->second);
                }
                if (!P.empty()) {
                    auto& q = P[size_t(s.b) % P.size()];
                    for (auto& f : F)
                        if (f.second == q.second) {
                            dirty_stack(byte);
                            out.add(q.first(*f.first));
                        }
                }
                break;
            }
            default: {  // evaluate
                auto* f = pickF(s.a);
                if (!f) break;
                note("eval" + at_str(s.x.data(), s.k.data(), D));
                const IFn& h = *f->first;
                dirty_stack(byte);
                out.add(h.call(s.x.data(), s.how & 1));
                dirty_stack(byte);
                out.add(h.der(s.x.data(), s.k.data(), s.how % 3));
                try {
                    out.add(h.at(s.x.data(), s.how & 1));
                } catch (const std::exception&) {
                    out.add(-1);
                }
                try {
                    out.add(h.der_at(s.x.data(), s.k.data(), s.how % 3));
                } catch (const std::exception&) {
                    out.add(-1);
                }
                dirty_stack(byte);
                out.add(h.spl(s.x.data()));
                out.add(h.spl_der(s.x.data(), s.k.data()));
                for (size_t d = 0; d < D; ++d) {
                    out.add(h.range(d).first);
                    out.add(h.range(d).second);
                    out.add(h.periodic(d) + 2 * h.uniform(d));
                }
            }
        }
    }
    return out;
}

static void body(Ctx& ctx) {
    Gen& g = ctx.g;
    Plan p;
    p.b = gen_backend(g);
    size_t D = p.b->dim, O = p.b->order;
    GridOpt go;
    go.big = g.coin(1, 4);
    size_t ng = 1 + g.below(2);
    std::vector<Spline> refs;
    for (size_t i = 0; i < ng; ++i) {
        p.grids.push_back(gen_grid(g, D, O, go));
        if (i == 0) maybe_default_range(g, p.grids[0]);
        // only for the knots around which coordinates are drawn
        refs.emplace_back(p.grids[i], static_cast<int>(O));
        p.data.emplace_back();
        for (int j = 0; j < 2; ++j) p.data[i].push_back(gen_data(g, p.grids[i].size()));
    }
    size_t n = 3 + g.below(14);
    size_t evals = 0;
    for (size_t i = 0; i < n; ++i) {
        Step s;
        s.op = i == 0 ? static_cast<int>(g.below(2))
                      : static_cast<int>(g.pick({8, 6, 10, 4, 6, 5, 4, 6, 5, 3, 8, 30}));
        s.a = static_cast<int>(g.below(12));
        s.b = static_cast<int>(g.below(12));
        s.grid = static_cast<int>(g.below(ng));
        s.data = static_cast<int>(g.below(2));
        s.how = static_cast<int>(g.below(24));
        if (s.op >= 10) {
            for (size_t d = 0; d < D; ++d)
                s.x.push_back(wild(g, p.grids[size_t(s.grid)].ax[d], refs[size_t(s.grid)].ax[d]));
            s.k = gen_orders(g, D, O);
            ++evals;
        }
        p.steps.push_back(s);
    }
    std::string head = show(*p.b) + " ";
    for (size_t i = 0; i < ng; ++i) head += "G" + std::to_string(i) + "=" + show(p.grids[i]) + " ";
    head += "ops:";
    for (auto& s : p.steps) {
        head += " " + std::to_string(s.op);
        if (s.op >= 10) head += at_str(s.x.data(), s.k.data(), D);
    }
    ctx.describe(head);
#ifdef FILL
    int b1 = 1 + static_cast<int>(g.below(255));
    int b2 = 1 + static_cast<int>((b1 + g.below(254)) % 255);
    mallopt(M_PERTURB, b1);
    Sink r1 = execute(p, b1, nullptr);
    mallopt(M_PERTURB, b2);
    Sink r2 = execute(p, b2, nullptr);
    mallopt(M_PERTURB, 0);
    if (r1.v.size() != r2.v.size()) ctx.fail("number of results depends on the contents of fresh memory");
    for (size_t i = 0; i < r1.v.size(); ++i)
        if (!(r1.v[i] == r2.v[i] || (r1.v[i] != r1.v[i] && r2.v[i] != r2.v[i])))
            ctx.fail("result " + std::to_string(i) + " depends on the contents of fresh memory: " +
                     num(r1.v[i]) + " or " + num(r2.v[i]));
    if (!r1.v.empty()) ctx.nontrivial();
#else
    Sink r = execute(p, 0, nullptr);
    if (!r.v.empty()) ctx.nontrivial();
#endif
    label_grid(ctx, *p.b, p.grids[0]);
    (void)evals;
}

const pbt::Property& pbt::property() {
    static pbt::Property p = {
        "C17",
#ifdef FILL
        "a random history of valid uses (as for the sanitizer target) is "
        "executed twice, with fresh heap blocks and dead stack filled with two "
        "different bytes, and must give identical results; non-trivial: at "
        "least one function was evaluated",
#else
        "a random history of 3-16 valid uses (construct, interpolate, copy, "
        "move, assign, swap, destroy, proxies, values, checked values, "
        "derivatives, ranges) at coordinates drawn from the whole finite "
        "double range with emphasis on knots, ends and period multiples, in a "
        "build with address, leak and undefined behaviour sanitizers; "
        "non-trivial: at least one function was evaluated",
#endif
        body};
#ifdef HAVE_LSAN
    p.leaked = [] { return __lsan_do_recoverable_leak_check() != 0; };
#endif
    return p;
}

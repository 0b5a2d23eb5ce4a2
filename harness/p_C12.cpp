// Threads sharing functions and templates, under ThreadSanitizer: no race may
// be reported and every thread must obtain exactly the sequential results.
#include <thread>

#include "common.hpp"
using namespace prop;

struct Op {
    int kind;  // see run_op
    int obj, data, how;
    std::vector<double> x;
    std::vector<size_t> k;
    int grid;
};

struct World {
    const Backend* b;
    std::vector<Grid> grids;
    std::vector<std::vector<Data>> data;
    std::vector<FnPtr> fn;    // grid i, data 0
    std::vector<TplPtr> tpl;  // grid i
    std::vector<Proxy> proxy; // of template 0, may be empty
};

static void probe_into(const IFn& f, const Op& o, std::vector<double>& r) {
    r.push_back(f.call(o.x.data(), o.how & 1));
    r.push_back(f.der(o.x.data(), o.k.data(), o.how % 3));
}

static void run_op(const World& w, const Op& o, std::vector<double>& r) {
    const size_t gi = size_t(o.grid);
    const Data& d = w.data[gi][size_t(o.data)];
    switch (o.kind) {
        case 0: r.push_back(w.fn[gi]->call(o.x.data(), o.how & 1)); break;
        case 1: r.push_back(w.fn[gi]->der(o.x.data(), o.k.data(), o.how % 3)); break;
        case 2:
            try {
                r.push_back(w.fn[gi]->at(o.x.data(), o.how & 1));
                r.push_back(w.fn[gi]->der_at(o.x.data(), o.k.data(), o.how % 3));
            } catch (const std::domain_error&) {
                r.push_back(-1);
            }
            break;
        case 3:
            for (size_t i = 0; i < w.b->dim; ++i) {
                r.push_back(w.fn[gi]->range(i).first);
                r.push_back(w.fn[gi]->range(i).second);
                r.push_back(w.fn[gi]->periodic(i) + 2 * w.fn[gi]->uniform(i));
            }
            r.push_back(w.fn[gi]->spl(o.x.data()));
            break;
        case 4: {  // copy
            FnPtr c = w.fn[gi]->clone();
            probe_into(*c, o, r);
            break;
        }
        case 5: {  // assign from the shared one to a private one
            FnPtr c = w.b->make_empty();
            c->assign(*w.fn[gi]);
            probe_into(*c, o, r);
            break;
        }
        case 6: {  // build from the shared template
            FnPtr c = w.tpl[gi]->interpolate(d, o.how % 4);
            probe_into(*c, o, r);
            break;
        }
        case 7: {
            FnPtr c = w.b->make_empty();
            w.tpl[gi]->interpolate_into(*c, d, o.how % 4);
            probe_into(*c, o, r);
            break;
        }
        case 8: {
            TplPtr t = w.tpl[gi]->clone();
            FnPtr c = t->interpolate_rvalue(d, o.how % 4);
            probe_into(*c, o, r);
            break;
        }
        case 9: {  // independent construction
            FnPtr c = w.b->make(w.grids[gi], d, o.how % vf::N_ROUTES);
            probe_into(*c, o, r);
            break;
        }
        default: {
            if (w.tpl[gi]->has_proxy()) {
                Proxy p = w.tpl[gi]->proxy(o.x.data(), o.how & 1);
                r.push_back(p(*w.fn[gi]));
                if (gi == 0)
                    for (auto& q : w.proxy) r.push_back(q(*w.fn[0]));
            } else
                r.push_back(w.fn[gi]->spl_der(o.x.data(), o.k.data()));
        }
    }
}

static void build(World& w, size_t ng, int route, const std::vector<std::vector<double>>& px) {
    for (size_t i = 0; i < ng; ++i) {
        w.fn.push_back(w.b->make(w.grids[i], w.data[i][0], route));
        w.tpl.push_back(w.b->make_tpl(w.grids[i], route));
    }
    if (w.tpl[0]->has_proxy())
        for (auto& x : px) w.proxy.push_back(w.tpl[0]->proxy(x.data(), 0));
}

static void body(Ctx& ctx) {
    Gen& g = ctx.g;
    World w;
    w.b = gen_backend(g);
    size_t D = w.b->dim, O = w.b->order;
    GridOpt go;
    go.big = g.coin(1, 4);
    go.mild = true;
    size_t ng = 1 + g.below(2);
    std::vector<Spline> refs;
    for (size_t i = 0; i < ng; ++i) {
        w.grids.push_back(gen_grid(g, D, O, go));
        refs.emplace_back(w.grids[i], static_cast<int>(O));
        w.data.emplace_back();
        for (int j = 0; j < 3; ++j) w.data[i].push_back(gen_data(g, w.grids[i].size()));
    }
    size_t nt = 2 + g.below(5);
    // what all threads do mostly, to make them meet
    int focus = static_cast<int>(g.below(11));
    std::vector<std::vector<Op>> ops(nt);
    for (auto& v : ops) {
        size_t k = 1 + g.below(10);
        for (size_t i = 0; i < k; ++i) {
            Op o;
            o.kind = g.coin() ? focus : static_cast<int>(g.below(11));
            o.obj = 0;
            o.grid = static_cast<int>(g.below(ng));
            o.data = static_cast<int>(g.below(3));
            o.how = static_cast<int>(g.below(24));
            o.x = gen_coords(g, w.grids[size_t(o.grid)], refs[size_t(o.grid)]);
            o.k = gen_orders(g, D, O);
            v.push_back(o);
        }
    }
    std::vector<std::vector<double>> px;
    size_t np = g.below(3);
    for (size_t i = 0; i < np; ++i) px.push_back(gen_coords(g, w.grids[0], refs[0]));
    int route = static_cast<int>(g.below(6));
    std::string d = show(*w.b) + " ";
    for (auto& x : w.grids) d += show(x) + " ";
    for (auto& v : ops) {
        d += " thread:";
        for (auto& o : v) d += " " + std::to_string(o.kind);
    }
    ctx.describe(d);
    label_grid(ctx, *w.b, w.grids[0]);
    ctx.label("focus " + std::to_string(focus));

    // what each thread obtains alone, from objects of its own
    std::vector<std::vector<double>> want(nt), got(nt);
    for (size_t t = 0; t < nt; ++t) {
        World solo;
        solo.b = w.b;
        solo.grids = w.grids;
        solo.data = w.data;
        build(solo, ng, route, px);
        for (auto& o : ops[t]) run_op(solo, o, want[t]);
    }
    build(w, ng, route, px);
    const World& shared = w;
    std::atomic<size_t> ready{0};
    std::vector<std::thread> ts;
    std::vector<std::string> err(nt);
    for (size_t t = 0; t < nt; ++t)
        ts.emplace_back([&, t] {
            ready.fetch_add(1);
            while (ready.load() < nt) std::this_thread::yield();
            try {
                for (auto& o : ops[t]) run_op(shared, o, got[t]);
            } catch (const std::exception& e) {
                err[t] = e.what();
            }
        });
    for (auto& t : ts) t.join();
    for (size_t t = 0; t < nt; ++t) {
        if (!err[t].empty()) ctx.fail("thread " + std::to_string(t) + " threw " + err[t]);
        if (got[t].size() != want[t].size()) ctx.fail("number of results differs");
        for (size_t i = 0; i < got[t].size(); ++i)
            if (!(got[t][i] == want[t][i] || (got[t][i] != got[t][i] && want[t][i] != want[t][i])))
                ctx.fail("thread " + std::to_string(t) + " result " + std::to_string(i) + ": " +
                         num(got[t][i]) + ", alone " + num(want[t][i]));
    }
    ctx.nontrivial();
}

const pbt::Property& pbt::property() {
    static pbt::Property p = [] {
        pbt::Property q = {
            "C12",
            "2-6 threads, each with 1-10 random const operations (values, "
            "derivatives, checked values, ranges, copies, building from a shared "
            "template, copying it, proxies) on shared functions and templates "
            "or independent constructions; all started together; results must "
            "equal exactly those of the same operations alone on fresh objects; "
            "every case has at least two threads and is non-trivial",
            body};
        q.definite = true;
        q.hang_s = 60;
        return q;
    }();
    return p;
}

// Hand-built B-splines whose knots do not fit the control points.
#include <iostream>
#include <tuple>

#include "bs_api.hpp"
#include "gen.hpp"
using namespace gen;

namespace bs {
std::vector<Backend>& registry() {
    static std::vector<Backend> r;
    return r;
}
}  // namespace bs

static void body(Ctx& ctx) {
    std::cout.setstate(std::ios::failbit);
    Gen& g = ctx.g;
    auto& reg = bs::registry();
    std::sort(reg.begin(), reg.end(), [](const bs::Backend& a, const bs::Backend& b) {
        return std::make_tuple(a.cfg, a.dim, a.order) < std::make_tuple(b.cfg, b.dim, b.order);
    });
    const bs::Backend& b = reg[g.below(reg.size())];
    size_t D = b.dim, O = b.order;
    bs::Desc d;
    size_t total = 1;
    for (size_t i = 0; i < D; ++i) {
        bool per = g.coin(2, 5);
        size_t n = O + 1 + g.below(D == 1 ? 20 : 5);
        d.periodic.push_back(per);
        d.n.push_back(n);
        std::vector<double> t;
        double x = static_cast<double>(g.range(-9, 9));
        // the difference the library requires of a spline with this axis
        for (size_t k = 0; k < n + (per ? 2 * O + 1 : O + 1); ++k) {
            t.push_back(x);
            x += static_cast<double>(per ? 1 : 1 + g.below(4));
        }
        d.knots.push_back(t);
        total *= n;
    }
    for (size_t i = 0; i < total; ++i) d.c.push_back(g.uniform(-1, 1));
    bool fault = g.coin(3, 4);
    int route = static_cast<int>(g.below(4));
    std::string how = "valid";
    if (fault) {
        if (route == 2) route = 0;  // loads the parts one by one, no check
        size_t ax = g.below(D);
        auto& t = d.knots[ax];
        long k = g.range(1, 4);
        if (g.coin() && t.size() >= 2 * O + 2 + size_t(k)) {
            t.resize(t.size() - size_t(k));
            how = "axis " + std::to_string(ax) + " short by " + std::to_string(k);
        } else {
            for (long j = 0; j < k; ++j) t.push_back(t.back() + 1);
            how = "axis " + std::to_string(ax) + " long by " + std::to_string(k);
        }
    }
    std::string ds = "cfg" + std::to_string(b.cfg) + " D=" + std::to_string(D) + " O=" + std::to_string(O) +
                     " route=" + std::to_string(route) + " " + how;
    for (size_t i = 0; i < D; ++i)
        ds += (d.periodic[i] ? " periodic n=" : " n=") + std::to_string(d.n[i]) + " knots " + show(d.knots[i]);
    ctx.describe(ds);
    ctx.label(fault ? "fault" : "valid");
    bool thrown = false;
    std::unique_ptr<bs::ISpl> s;
    try {
        s = b.make(d, route);
        if (!fault) {
            std::vector<double> x;
            std::vector<size_t> k(D, 0);
            for (size_t i = 0; i < D; ++i) {
                auto& t = d.knots[i];
                x.push_back(g.uniform(t[O], t[t.size() - O - 1]));
                k[i] = g.below(O + 1);
            }
            s->val(x.data());
            s->der(x.data(), k.data());
        }
    } catch (const std::runtime_error& e) {
        thrown = true;
        if (!fault) ctx.fail(std::string("valid spline was rejected: ") + e.what());
    }
    if (fault && !thrown) ctx.fail("knots that do not fit the control points were accepted");
    ctx.nontrivial();
}

const pbt::Property& pbt::property() {
    static pbt::Property p = {
        "C18",
        "hand-built splines in assertion builds with valid knots, or with 1-4 "
        "knots too few or too many on one axis; every case is non-trivial",
        body};
    return p;
}

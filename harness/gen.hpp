// Generators for grids, data and coordinates.
#pragma once
#include <cmath>
#include <cstdio>
#include <string>
#include <vector>

#include "api.hpp"
#include "pbt.hpp"
#include "ref.hpp"

namespace gen {
using pbt::Ctx;
using pbt::Gen;
using std::size_t;
using vf::Axis;
using vf::Backend;
using vf::Data;
using vf::Grid;

inline std::string num(double v) {
    char b[40];
    std::snprintf(b, sizeof b, "%.17g", v);
    return b;
}
inline std::string num(long double v) {
    char b[48];
    std::snprintf(b, sizeof b, "%.21Lg", v);
    return b;
}

struct GridOpt {
    int periodic = -1;    // -1 any, 0 no, 1 yes
    int uniform = -1;
    size_t max_n = 0;     // 0: by dimension
    bool mild = false;    // no extreme scales or ratios
    bool big = true;      // occasionally large
};

inline size_t gen_n(Gen& g, size_t order, size_t dim, bool per,
                    const GridOpt& o) {
    size_t lo = std::max<size_t>(order + 1, per ? 1 : 2);
    size_t extra;
    static const size_t cap_small[] = {0, 14, 7, 4, 2};
    size_t cap = cap_small[std::min<size_t>(dim, 4)];
    // rarely one long axis
    static const size_t cap_long[] = {0, 250, 100, 30, 9};
    switch (g.pick({400, 450, 150, o.big ? 4u : 0u})) {
        case 0: extra = g.below(std::min<size_t>(cap, 4) + 1); break;
        case 1: extra = g.below(cap + 1); break;
        case 3: extra = g.below(cap_long[std::min<size_t>(dim, 4)] + 1); break;
        default:
            extra = g.below((o.big ? (dim == 1 ? 60 : dim == 2 ? 16 : cap)
                                   : cap) +
                            1);
    }
    size_t n = lo + extra;
    if (o.max_n) n = std::max(lo, std::min(n, o.max_n));
    return n;
}

// most: decimal exponent that the highest mixed derivative can still bear
inline double gen_scale(Gen& g, bool mild, long most = 9) {
    switch (g.pick({60, 20, 10, 10})) {
        case 0: return 1;
        case 1: return g.uniform(0.2, 5);
        case 2: return std::ldexp(1.0, static_cast<int>(g.range(-6, 6)));
        default:
            if (!g.coin(1, 4)) most = 9;
            return mild ? 3 : std::pow(10.0, static_cast<double>(g.range(-most, most)));
    }
}

inline Axis gen_axis(Gen& g, size_t order, size_t dim, const GridOpt& o) {
    Axis a;
    a.periodic = o.periodic < 0 ? g.coin(2, 5) : o.periodic == 1;
    a.uniform = o.uniform < 0 ? !g.coin() : o.uniform == 1;
    a.n = gen_n(g, order, dim, a.periodic, o);
    size_t m = a.n + (a.periodic ? 1 : 0);
    long bear = static_cast<long>(200 / (order * dim + 1));
    double scale = gen_scale(g, o.mild, std::max(9L, std::min(30L, bear)));
    // offset in units of the spacing
    double off = 0;
    switch (g.pick({40, 20, 20, 15, 5})) {
        case 0: off = 0; break;
        case 1: off = static_cast<double>(g.range(-20, 20)); break;
        case 2: off = g.uniform(-10, 10); break;
        case 3: off = -0.5 * static_cast<double>(m - 1); break;
        default: off = o.mild ? 7 : static_cast<double>(g.range(-2000, 2000));
    }
    a.x.resize(m);
    if (a.uniform) {
        double h = scale;
        if (g.coin(1, 4)) h *= g.uniform(0.3, 3);
        a.a = off * h;
        a.b = off * h + static_cast<double>(m - 1) * h;
        double dx = (a.b - a.a) / static_cast<double>(m - 1);
        for (size_t i = 0; i < m; ++i)
            a.x[i] = a.a + static_cast<double>(i) * dx;
        a.x[m - 1] = a.b;
    } else {
        size_t style = g.pick({30, 30, 12, 10, 10, 8, a.periodic ? 0u : 8u});
        double x = off, ratio = 1;
        if (style == 2) {
            ratio = g.uniform(0.75, 1.4);
            // keep the longest step within 1e5 times the shortest
            double most = std::exp(11.5 / static_cast<double>(m));
            ratio = std::min(most, std::max(1 / most, ratio));
        }
        double step = 1;
        size_t odd = style == 4 ? g.below(m) : m;
        for (size_t i = 0; i < m; ++i) {
            a.x[i] = x * scale;
            switch (style) {
                case 0: step = static_cast<double>(1 + g.below(4)); break;
                case 1: step = g.uniform(0.3, 1.7); break;
                case 2: step *= ratio; break;
                case 3: step = 1; break;  // equally spaced list
                case 4:
                    step = i == odd ? (o.mild ? 0.2 : 0.01) : 1.0;
                    break;
                default:
                    step = std::ldexp(1.0, -static_cast<int>(g.below(
                                               o.mild ? 3 : 7)));
            }
            if (step < 1e-3) step = 1e-3;
            x += step;
        }
        if (style == 6) {
            // graded towards zero at either end
            ratio = g.uniform(1.2, o.mild ? 1.3 : order <= 3 ? 2.2 : 1.5);
            bool up = g.coin();
            double v = 1;
            for (size_t i = 0; i < m; ++i, v /= ratio)
                a.x[up ? i : m - 1 - i] = (up ? -v : v) * scale;
        }
        a.a = a.x.front();
        a.b = a.x.back();
        for (size_t i = 0; i + 1 < m; ++i)
            if (!(a.x[i] < a.x[i + 1])) throw pbt::Discard{};
    }
    return a;
}

inline Grid gen_grid(Gen& g, size_t dim, size_t order,
                     const GridOpt& o = GridOpt()) {
    Grid r;
    for (size_t d = 0; d < dim; ++d)
        r.ax.push_back(gen_axis(g, order, dim, o));
    // keep the number of points bounded
    return r;
}

// a grid that differs from another one in few respects
inline Grid sibling_grid(Gen& g, const Grid& base, size_t order, const GridOpt& o) {
    Grid r = base;
    for (auto& a : r.ax) {
        size_t m = a.x.size();
        switch (g.pick({30, 25, 15, 10, 10, 10})) {
            case 0: break;
            case 1:  // same ends and size, other abscissae between them
                if (m > 2) {
                    a.uniform = false;
                    std::vector<double> y = a.x;
                    for (size_t i = 1; i + 1 < m; ++i)
                        y[i] = a.x[i] + g.uniform(-0.3, 0.3) *
                                            std::min(a.x[i] - a.x[i - 1], a.x[i + 1] - a.x[i]);
                    a.x = y;
                }
                break;
            case 2:  // ends to list, list to ends
                a.uniform = !a.uniform;
                if (a.uniform) {
                    double dx = (a.b - a.a) / static_cast<double>(m - 1);
                    for (size_t i = 0; i + 1 < m; ++i) a.x[i] = a.a + static_cast<double>(i) * dx;
                }
                break;
            case 3:  // periodicity
                if (a.periodic) {
                    a.periodic = false;
                    a.n = m;
                } else if (m > order + 1 && m > 1) {
                    a.periodic = true;
                    a.n = m - 1;
                }
                break;
            case 4: {  // shifted
                double s = (a.b - a.a) * static_cast<double>(g.range(1, 3)) * (g.coin() ? 1 : -0.5);
                for (auto& v : a.x) v += s;
                a.a = a.x.front(), a.b = a.x.back();
                break;
            }
            default: a = gen_axis(g, order, r.dim(), o);
        }
        for (size_t i = 0; i + 1 < a.x.size(); ++i)
            if (!(a.x[i] < a.x[i + 1])) throw pbt::Discard{};
    }
    return r;
}

// is the axis the default range of the one dimensional constructors?
inline void maybe_default_range(Gen& g, Grid& r) {
    if (r.dim() == 1 && r.ax[0].uniform && g.coin(1, 4)) {
        Axis& a = r.ax[0];
        a.a = 0;
        a.b = static_cast<double>(a.periodic ? a.n : a.n - 1);
        for (size_t i = 0; i < a.x.size(); ++i)
            a.x[i] = static_cast<double>(i);
    }
}

inline Data gen_data(Gen& g, size_t size) {
    Data f;
    f.f.resize(size);
    double scale = 1;
    switch (g.pick({70, 10, 10, 10})) {
        case 0: break;
        case 1: scale = g.uniform(0.1, 10); break;
        case 2: scale = std::pow(10.0, static_cast<double>(g.range(-30, 30)));
                break;
        default: scale = std::pow(10.0, static_cast<double>(g.range(-6, 6)));
    }
    switch (g.pick({35, 35, 15, 10, 5})) {
        case 0:
            for (auto& v : f.f) v = scale * static_cast<double>(g.range(-8, 8));
            break;
        case 1:
            for (auto& v : f.f) v = scale * g.uniform(-1, 1);
            break;
        case 2: {  // impulses
            size_t k = 1 + g.below(3);
            for (size_t i = 0; i < k; ++i) f.f[g.below(size)] = scale;
            break;
        }
        case 3: {  // mean far from zero
            double m = g.uniform(-100, 100);
            for (auto& v : f.f) v = scale * (m + g.uniform(-1, 1));
            break;
        }
        default: {
            double w = g.uniform(0.1, 3);
            for (size_t i = 0; i < size; ++i)
                f.f[i] = scale * std::sin(w * static_cast<double>(i));
        }
    }
    switch (g.pick({40, 30, 30})) {
        case 0: f.junk = f.f[0]; break;
        case 1: f.junk = scale * g.uniform(-50, 50); break;
        default: f.junk = std::numeric_limits<double>::quiet_NaN();
    }
    return f;
}

enum CoordKind { INSIDE, NODE, KNOT, NEAR, OUTSIDE, FAR };

struct CoordOpt {
    bool outside = true;  // aperiodic: outside the range allowed
};

inline double nudge(double v, int k) {
    double inf = std::numeric_limits<double>::infinity();
    for (; k > 0; --k) v = std::nextafter(v, inf);
    for (; k < 0; ++k) v = std::nextafter(v, -inf);
    return v;
}

// a large number of periods, either way
inline long many_periods(Gen& g) {
    long m = 1000;
    for (size_t i = g.below(9); i > 0; --i) m *= 10;
    m = g.coin() ? m : g.range(m / 10, m);
    return g.coin() ? m : -m;
}

inline double gen_coord(Gen& g, const Axis& a, const ref::RefAxis& ra,
                        const CoordOpt& o, int* kind = nullptr) {
    double lo = a.x.front(), hi = a.x.back(), len = hi - lo;
    size_t m = a.x.size();
    double c = lo;
    int kd = INSIDE;
    switch (g.pick({25, 15, 20, 15, 10, 15})) {
        case 0: c = lo + len * g.unit(); break;
        case 1: {  // data points
            c = a.x[g.below(m)];
            kd = NODE;
            break;
        }
        case 2: {  // knots
            long k = a.periodic ? g.range(-1, static_cast<long>(a.n) + 1)
                                : g.range(0, static_cast<long>(a.n) + ra.O);
            c = static_cast<double>(ra.knot(k));
            kd = KNOT;
            break;
        }
        case 3: {  // near data points, knots, ends
            switch (g.below(3)) {
                case 0: c = g.coin() ? lo : hi; break;
                case 1: c = a.x[g.below(m)]; break;
                default:
                    c = static_cast<double>(ra.knot(
                        a.periodic ? g.range(0, static_cast<long>(a.n))
                                   : g.range(0, static_cast<long>(a.n) + ra.O)));
            }
            if (g.coin())
                c = nudge(c, static_cast<int>(g.range(-3, 3)));
            else
                c += len / static_cast<double>(m) *
                     std::pow(10.0, -static_cast<double>(g.range(1, 14))) *
                     (g.coin() ? 1 : -1);
            kd = NEAR;
            break;
        }
        case 4: {  // within one of the end intervals
            double h = a.x[1] - a.x[0], k = a.x[m - 1] - a.x[m - 2];
            c = g.coin() ? hi - k * g.unit() * 1.5 : lo + h * g.unit() * 1.5;
            if (!a.periodic && (c < lo || c > hi)) c = lo + len * g.unit();
            break;
        }
        default: {
            if (a.periodic) {
                double u = lo + len * g.unit();
                if (g.coin(1, 3)) u = a.x[g.below(m)];
                long w = g.coin(1, 4) ? g.range(-1000, 1000) : g.range(-3, 3);
                if (g.coin(1, 16)) w = many_periods(g);
                c = u + static_cast<double>(w) * len;
                kd = FAR;
            } else if (o.outside) {
                double t = g.coin() ? g.unit() * 0.1 : g.unit() * 1.0;
                if (g.coin(1, 6)) t = g.unit() * 20;
                c = g.coin() ? hi + t * len : lo - t * len;
                kd = OUTSIDE;
            } else
                c = lo + len * g.unit();
        }
    }
    if (!a.periodic && !o.outside) {
        if (c < lo) c = lo;
        if (c > hi) c = hi;
    }
    if (kind) *kind = kd;
    return c;
}

inline std::vector<double> gen_coords(Gen& g, const Grid& gr,
                                      const ref::Spline& s,
                                      const CoordOpt& o = CoordOpt()) {
    std::vector<double> c;
    for (size_t d = 0; d < gr.dim(); ++d)
        c.push_back(gen_coord(g, gr.ax[d], s.ax[d], o));
    return c;
}

// derivative multi-index; mostly orders up to the spline's, sometimes above
inline std::vector<size_t> gen_orders(Gen& g, size_t dim, size_t order,
                                      bool above = true) {
    std::vector<size_t> k(dim, 0);
    for (auto& v : k) {
        if (g.coin(1, 2)) v = g.below(order + 1);
        if (above && g.coin(1, 40)) {
            static const size_t far[] = {10, 63, 64, 255, 256, 1000, 65536, 2147483647};
            v = order + 1 + g.below(3);
            if (g.coin(1, 4)) v = std::max(v, far[g.below(8)]);
        }
    }
    bool any = false;
    for (auto v : k) any |= v > 0;
    if (!any && order > 0 && g.coin(3, 4)) k[g.below(dim)] = 1 + g.below(order);
    return k;
}

inline const Backend* gen_backend(Gen& g, int dim = -1,
                                  bool (*pred)(const Backend&) = nullptr) {
    // stratify: dimension first, then configuration, then order
    static const unsigned dims_w[] = {0, 45, 30, 15, 10};
    auto& reg = vf::registry();
    if (dim < 0) {
        unsigned avail = 0;
        for (auto& b : reg)
            if (!pred || pred(b)) avail |= 1u << b.dim;
        unsigned tot = 0;
        for (unsigned d = 1; d <= 4; ++d)
            if (avail >> d & 1) tot += dims_w[d];
        unsigned v = static_cast<unsigned>(g.below(tot));
        for (unsigned d = 1; d <= 4; ++d)
            if (avail >> d & 1) {
                if (v < dims_w[d]) {
                    dim = static_cast<int>(d);
                    break;
                }
                v -= dims_w[d];
            }
    }
    std::vector<const Backend*> c;
    for (auto& b : reg)
        if (static_cast<int>(b.dim) == dim && (!pred || pred(b)))
            c.push_back(&b);
    return c[g.below(c.size())];
}

inline std::string show(const std::vector<double>& v, size_t max = 24) {
    std::string s = "[";
    for (size_t i = 0; i < v.size() && i < max; ++i)
        s += (i ? "," : "") + num(v[i]);
    if (v.size() > max) s += ",... " + std::to_string(v.size()) + " values";
    return s + "]";
}
inline std::string show(const std::vector<size_t>& v) {
    std::string s = "[";
    for (size_t i = 0; i < v.size(); ++i)
        s += (i ? "," : "") + std::to_string(v[i]);
    return s + "]";
}
inline std::string show(const Axis& a) {
    std::string s = a.periodic ? "periodic " : "aperiodic ";
    if (a.uniform)
        return s + "uniform n=" + std::to_string(a.n) + " [" + num(a.a) + "," +
               num(a.b) + "]";
    return s + "x=" + show(a.x);
}
inline std::string show(const Grid& g) {
    std::string s;
    for (size_t d = 0; d < g.dim(); ++d)
        s += (d ? " x {" : "{") + show(g.ax[d]) + "}";
    return s;
}
inline std::string show(const Backend& b) {
    return "cfg" + std::to_string(b.cfg) + " (c++" +
           std::to_string(b.std_ / 100 % 100) + (b.multithread ? " MT" : "") +
           (b.cell ? " CELL" : "") + (b.no_dummy ? " NODUMMY" : "") +
           (b.assertion ? " ASSERT" : "") + ") D=" + std::to_string(b.dim) +
           " O=" + std::to_string(b.order);
}
inline void label_grid(Ctx& c, const Backend& b, const Grid& g) {
    c.label("D=" + std::to_string(b.dim));
    c.label("O=" + std::to_string(b.order));
    c.label("cfg=" + std::to_string(b.cfg));
    bool p = false, a = false, u = false, nu = false, mn = false;
    for (auto& x : g.ax) {
        (x.periodic ? p : a) = true;
        (x.uniform ? u : nu) = true;
        mn |= x.n == b.order + 1;
    }
    c.label(p && a ? "mixed periodicity" : p ? "periodic" : "aperiodic");
    c.label(u && nu ? "mixed spacing" : u ? "uniform" : "nonuniform");
    if (mn) c.label("minimal size axis");
}

constexpr double EPS = 2.220446049250313e-16;

}  // namespace gen

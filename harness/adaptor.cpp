// Compiled once per (configuration, dimension, orders):
//   -DCFG_ID=k -DVDIM=d -DVORDERS=0,1,2 [-Dintp=intp_k] [-DINTP_...]
// Uses nothing but the documented interface of the library.
#include <Interpolation.hpp>

#include <list>
#include <stdexcept>

#include "api.hpp"
#include "single_pass.hpp"

namespace {
using namespace vf;
using std::size_t;

#ifdef INTP_PERIODIC_NO_DUMMY_POINT
constexpr bool NO_DUMMY = true;
#else
constexpr bool NO_DUMMY = false;
#endif

template <size_t D>
std::array<size_t, D> mesh_shape(const Grid& g) {
    std::array<size_t, D> s{};
    for (size_t d = 0; d < D; ++d)
        s[d] = g.ax[d].n + (g.ax[d].periodic && !NO_DUMMY ? 1 : 0);
    return s;
}

template <size_t D>
std::array<bool, D> periodicity(const Grid& g) {
    std::array<bool, D> p{};
    for (size_t d = 0; d < D; ++d) p[d] = g.ax[d].periodic;
    return p;
}

// element i of the flat data given to the library
template <size_t D>
std::vector<double> flat_data(const Grid& g, const Data& f) {
    auto s = mesh_shape<D>(g);
    size_t total = 1;
    for (auto v : s) total *= v;
    std::vector<double> out(total);
    for (size_t i = 0; i < total; ++i) {
        size_t r = i, idx[D];
        for (size_t d = D; d-- > 0;) {
            idx[d] = r % s[d];
            r /= s[d];
        }
        bool dummy = false;
        size_t flat = 0;
        for (size_t d = 0; d < D; ++d) {
            if (idx[d] >= g.ax[d].n) dummy = true;
            flat = flat * g.ax[d].n + idx[d];
        }
        out[i] = dummy ? f.junk : f.f[flat];
    }
    return out;
}

template <size_t D>
intp::Mesh<double, D> make_mesh(const Grid& g, const Data& f) {
    auto s = mesh_shape<D>(g);
    auto v = flat_data<D>(g, f);
    intp::Mesh<double, D> m{intp::MeshDimension<D>(s)};
    for (size_t i = 0; i < v.size(); ++i) {
        std::array<size_t, D> idx{};
        size_t r = i;
        for (size_t d = D; d-- > 0;) {
            idx[d] = r % s[d];
            r /= s[d];
        }
        m(idx) = v[i];
    }
    return m;
}

template <size_t N, size_t... I>
struct seq : seq<N - 1, N - 1, I...> {};
template <size_t... I>
struct seq<0, I...> {};

template <size_t D, size_t O>
struct Fn final : IFn {
    using F = intp::InterpolationFunction<double, D, O, double>;
    F f;
    Fn() : f() {}
    explicit Fn(const F& o) : f(o) {}
    explicit Fn(F&& o) : f(std::move(o)) {}

    static std::array<double, D> arr(const double* c) {
        std::array<double, D> r{};
        for (size_t d = 0; d < D; ++d) r[d] = c[d];
        return r;
    }
    static std::array<size_t, D> karr(const size_t* c) {
        std::array<size_t, D> r{};
        for (size_t d = 0; d < D; ++d) r[d] = c[d];
        return r;
    }
    template <size_t... I>
    double callv(seq<0, I...>, const double* c) const {
        return f(c[I]...);
    }
    template <size_t... I>
    double atv(seq<0, I...>, const double* c) const {
        return f.at(c[I]...);
    }
    // the same coordinates in narrower types which hold them exactly
    static bool integral(double v) {
        return v > -9e18 && v < 9e18 &&
               v == static_cast<double>(static_cast<long long>(v));
    }
    static bool single(double v) {
        return (v > -3e38 && v < 3e38 &&
                v == static_cast<double>(static_cast<float>(v)));
    }
    static bool all(bool (*p)(double), const double* c, size_t from = 0) {
        for (size_t d = from; d < D; ++d)
            if (!p(c[d])) return false;
        return true;
    }
    template <size_t I, typename A>
    static typename std::conditional<I == 0, A, double>::type first(double v) {
        return static_cast<
            typename std::conditional<I == 0, A, double>::type>(v);
    }
    template <typename K, size_t... I>
    static double narrow(K k, seq<0, I...>, const double* c) {
        if (all(integral, c)) return k(static_cast<long long>(c[I])...);
        if (all(single, c)) return k(static_cast<float>(c[I])...);
        if (D > 1 && integral(c[0])) return k(first<I, long long>(c[I])...);
        if (D > 1 && single(c[0])) return k(first<I, float>(c[I])...);
        return k(static_cast<long double>(c[I])...);
    }
    struct Call {
        const F& f;
        template <typename... A>
        double operator()(A... a) const {
            return f(a...);
        }
    };
    struct At {
        const F& f;
        template <typename... A>
        double operator()(A... a) const {
            return f.at(a...);
        }
    };
    template <size_t... I>
    double derv(seq<0, I...>, const double* c, const size_t* k,
                int syntax) const {
        if (syntax == 1) return f.derivative(arr(c), k[I]...);
        return f.derivative(std::make_pair(c[I], static_cast<int>(k[I]))...);
    }
    template <size_t... I>
    double der_atv(seq<0, I...>, const double* c, const size_t* k,
                   int syntax) const {
        if (syntax == 1)
            return f.derivative_at(arr(c), static_cast<int>(k[I])...);
        return f.derivative_at(std::make_pair(c[I], k[I])...);
    }
    double call(const double* c, int syntax) const override {
        if (syntax == 2) return narrow(Call{f}, seq<D>{}, c);
        return syntax ? callv(seq<D>{}, c) : f(arr(c));
    }
    double at(const double* c, int syntax) const override {
        if (syntax == 2) return narrow(At{f}, seq<D>{}, c);
        return syntax ? atv(seq<D>{}, c) : f.at(arr(c));
    }
    double der(const double* c, const size_t* k, int syntax) const override {
        return syntax ? derv(seq<D>{}, c, k, syntax)
                      : f.derivative(arr(c), karr(k));
    }
    double der_at(const double* c, const size_t* k, int syntax) const override {
        return syntax ? der_atv(seq<D>{}, c, k, syntax)
                      : f.derivative_at(arr(c), karr(k));
    }
    double spl(const double* c) const override { return f.spline()(arr(c)); }
    double spl_der(const double* c, const size_t* k) const override {
        std::array<std::pair<double, size_t>, D> a;
        for (size_t d = 0; d < D; ++d) a[d] = {c[d], k[d]};
        return f.spline().derivative_at(a);
    }
    std::pair<double, double> range(size_t d) const override {
        return f.range(d);
    }
    std::pair<double, double> spl_range(size_t d) const override {
        return f.spline().range(d);
    }
    bool periodic(size_t d) const override { return f.periodicity(d); }
    bool uniform(size_t d) const override { return f.uniform(d); }
    size_t order() const override { return F::get_order(); }
    const void* storage() const override {
        return f.spline().control_points().data();
    }
    FnPtr clone() const override { return FnPtr(new Fn(f)); }
    FnPtr move_out() override { return FnPtr(new Fn(std::move(f))); }
    void assign(const IFn& o) override { f = static_cast<const Fn&>(o).f; }
    void assign_move(IFn& o) override {
        f = std::move(static_cast<Fn&>(o).f);
    }
    void self_assign() override {
        F& alias = f;
        f = alias;
    }
    void swap(IFn& o) override { std::swap(f, static_cast<Fn&>(o).f); }
};

// calls k(ranges...) with one std::pair per axis: values for uniform axes,
// iterators for the others
template <size_t I, size_t D>
struct Ranges {
    template <typename K, typename... R>
    static void go(const Grid& g, K& k, R... r) {
        const Axis& a = g.ax[I];
        if (a.uniform)
            Ranges<I + 1, D>::go(g, k, r..., std::make_pair(a.a, a.b));
        else
            Ranges<I + 1, D>::go(g, k, r...,
                                 std::make_pair(a.x.cbegin(), a.x.cend()));
    }
};
template <size_t D>
struct Ranges<D, D> {
    template <typename K, typename... R>
    static void go(const Grid&, K& k, R... r) {
        k(r...);
    }
};

template <size_t D, size_t O>
using TplT = intp::InterpolationFunctionTemplate<double, D, O, double>;

template <typename M>
void same(const M& now, const M& before) {
    // a source that was moved from is empty
    if (std::distance(now.begin(), now.end()) !=
        std::distance(before.begin(), before.end()))
        throw std::logic_error("the data passed in were taken away");
    auto i = now.begin(), j = before.begin();
    for (; i != now.end(); ++i, ++j)
        if (!(*i == *j || (*i != *i && *j != *j)))
            throw std::logic_error("the data passed in were modified");
}

// interpolation of data by a template, different ways of passing them
template <size_t D>
struct Feed {
    template <typename T>
    static auto run(T&& t, const Grid& g, const Data& f, int how)
        -> typename std::remove_reference<T>::type::function_type {
        auto m = make_mesh<D>(g, f);
        if (how == 1) return std::forward<T>(t).interpolate(std::move(m));
        const auto keep = m;
        if (how == 2) {
            const auto& cm = m;
            auto r = std::forward<T>(t).interpolate(cm);
            same(m, keep);
            return r;
        }
        auto r = std::forward<T>(t).interpolate(m);
        same(m, keep);
        return r;
    }
    template <typename T, typename F>
    static void into(const T& t, F& fn, const Grid& g, const Data& f,
                     int how) {
        auto m = make_mesh<D>(g, f);
        if (how == 1)
            t.interpolate(fn, std::move(m));
        else {
            const auto keep = m;
            t.interpolate(fn, m);
            same(m, keep);
        }
    }
};
template <>
struct Feed<1> {
    template <typename T>
    static auto run(T&& t, const Grid& g, const Data& f, int how)
        -> typename std::remove_reference<T>::type::function_type {
        if (how == 3) {
            auto v = flat_data<1>(g, f);
            const auto keep = v;
            auto r = std::forward<T>(t).interpolate(
                std::make_pair(v.begin(), v.end()));
            same(v, keep);
            return r;
        }
        if (how == 2) {
            auto v = flat_data<1>(g, f);
            std::list<double> l(v.begin(), v.end());
            auto r = std::forward<T>(t).interpolate(
                std::make_pair(l.begin(), l.end()));
            same(l, std::list<double>(v.begin(), v.end()));
            return r;
        }
        auto m = make_mesh<1>(g, f);
        if (how == 1) return std::forward<T>(t).interpolate(std::move(m));
        const auto keep = m;
        auto r = std::forward<T>(t).interpolate(m);
        same(m, keep);
        return r;
    }
    template <typename T, typename F>
    static void into(const T& t, F& fn, const Grid& g, const Data& f,
                     int how) {
        if (how == 3) {
            auto v = flat_data<1>(g, f);
            t.interpolate(fn, std::make_pair(v.cbegin(), v.cend()));
            return;
        }
        auto m = make_mesh<1>(g, f);
        const auto keep = m;
        t.interpolate(fn, m);
        same(m, keep);
    }
};

template <size_t D, size_t O>
struct Tpl final : ITpl {
    Grid grid;
    TplT<D, O> t;
    Tpl(const Grid& g, const TplT<D, O>& o) : grid(g), t(o) {}
    Tpl(const Grid& g, TplT<D, O>&& o) : grid(g), t(std::move(o)) {}

    FnPtr interpolate(const Data& f, int how) const override {
        return FnPtr(new Fn<D, O>(Feed<D>::run(t, grid, f, how)));
    }
    FnPtr interpolate_rvalue(const Data& f, int how) override {
        return FnPtr(new Fn<D, O>(Feed<D>::run(std::move(t), grid, f, how)));
    }
    void interpolate_into(IFn& fn, const Data& f, int how) const override {
        Feed<D>::into(t, static_cast<Fn<D, O>&>(fn).f, grid, f, how);
    }
#ifdef INTP_CELL_LAYOUT
    bool has_proxy() const override { return true; }
    template <size_t... I>
    Proxy pv(seq<0, I...>, const double* c) const {
        auto p = t.eval_proxy(c[I]...);
        return [p](const IFn& fn) {
            return p(static_cast<const Fn<D, O>&>(fn).f);
        };
    }
    Proxy proxy(const double* c, int syntax) const override {
        if (syntax) return pv(seq<D>{}, c);
        typename TplT<D, O>::eval_proxy_t p =
            t.eval_proxy(Fn<D, O>::arr(c));
        return [p](const IFn& fn) {
            return p(static_cast<const Fn<D, O>&>(fn).f);
        };
    }
#else
    bool has_proxy() const override { return false; }
    Proxy proxy(const double*, int) const override { return Proxy(); }
#endif
    TplPtr clone() const override { return TplPtr(new Tpl(grid, t)); }
    TplPtr move_out() override { return TplPtr(new Tpl(grid, std::move(t))); }
    void assign(const ITpl& o) override {
        auto& r = static_cast<const Tpl&>(o);
        t = r.t;
        grid = r.grid;
    }
    void assign_move(ITpl& o) override {
        auto& r = static_cast<Tpl&>(o);
        t = std::move(r.t);
        grid = r.grid;
    }
    void swap(ITpl& o) override {
        auto& r = static_cast<Tpl&>(o);
        std::swap(t, r.t);
        std::swap(grid, r.grid);
    }
};

template <size_t D>
bool all_aperiodic(const Grid& g) {
    for (size_t d = 0; d < D; ++d)
        if (g.ax[d].periodic) return false;
    return true;
}

template <size_t D, size_t O>
struct TplMaker {
    const Grid& g;
    int route;
    TplPtr out;
    template <typename... R>
    void operator()(R... r) {
        intp::MeshDimension<D> md(mesh_shape<D>(g));
        if (route == 4 && all_aperiodic<D>(g))
            out.reset(new Tpl<D, O>(g, TplT<D, O>(md, r...)));
        else
            out.reset(new Tpl<D, O>(g, TplT<D, O>(periodicity<D>(g), md, r...)));
    }
};

template <size_t D, size_t O>
struct FnMaker {
    const Grid& g;
    const Data& f;
    int route;
    FnPtr out;
    template <typename... R>
    void operator()(R... r) {
        using F = typename Fn<D, O>::F;
        auto m = make_mesh<D>(g, f);
        if (route == 4 && all_aperiodic<D>(g))
            out.reset(new Fn<D, O>(F(m, r...)));
        else
            out.reset(new Fn<D, O>(F(periodicity<D>(g), m, r...)));
        same(m, make_mesh<D>(g, f));
    }
};

// one dimensional convenience constructors
template <size_t D, size_t O>
struct OneD {
    static FnPtr make(const Grid&, const Data&, int) { return FnPtr(); }
    static TplPtr make_tpl(const Grid&, int) { return TplPtr(); }
};
template <size_t O>
struct OneD<1, O> {
    using F = typename Fn<1, O>::F;
    using F1 = intp::InterpolationFunction1D<O, double, double>;
    using T1 = intp::InterpolationFunctionTemplate1D<O, double, double>;
    static bool default_range(const Axis& a) {
        return a.uniform && a.a == 0 &&
               a.b == static_cast<double>(a.periodic ? a.n : a.n - 1);
    }
    static FnPtr make(const Grid& g, const Data& f, int route) {
        const Axis& a = g.ax[0];
        auto v = flat_data<1>(g, f);
        auto fr = std::make_pair(v.begin(), v.end());
        auto xr = std::make_pair(a.x.begin(), a.x.end());
        auto ur = std::make_pair(a.a, a.b);
        if (route == 1) {
            if (default_range(a) && !a.periodic)
                return FnPtr(new Fn<1, O>(F1(fr)));
            if (default_range(a))
                return FnPtr(new Fn<1, O>(F1(fr, a.periodic)));
            return a.uniform
                       ? FnPtr(new Fn<1, O>(F1(ur, fr, a.periodic)))
                       : FnPtr(new Fn<1, O>(F1(xr, fr, a.periodic)));
        }
        if (route == 2) {
            if (!a.periodic)
                return a.uniform ? FnPtr(new Fn<1, O>(F(fr, ur)))
                                 : FnPtr(new Fn<1, O>(F(fr, xr)));
            return a.uniform ? FnPtr(new Fn<1, O>(F(a.periodic, fr, ur)))
                             : FnPtr(new Fn<1, O>(F(a.periodic, fr, xr)));
        }
        if (route == 5) {
            // other iterator categories and mixed argument types
            std::list<double> l(v.begin(), v.end());
            auto lr = std::make_pair(l.begin(), l.end());
            if (a.uniform) {
                if (a.a > -1e9 && a.a < 1e9 &&
                    a.a == static_cast<double>(static_cast<int>(a.a)))
                    return FnPtr(new Fn<1, O>(
                        F(a.periodic, lr,
                          std::make_pair(static_cast<int>(a.a), a.b))));
                return FnPtr(new Fn<1, O>(F(a.periodic, lr, ur)));
            }
            std::list<double> lx(a.x.begin(), a.x.end());
            return FnPtr(new Fn<1, O>(
                F(a.periodic, lr, std::make_pair(lx.begin(), lx.end()))));
        }
        if (route == 8) {
            // everything can be read only once
            sp::Stream<std::vector<double>> sv(v), sx(a.x);
            return a.uniform
                       ? FnPtr(new Fn<1, O>(F(a.periodic, sv.range(), ur)))
                       : FnPtr(new Fn<1, O>(
                             F(a.periodic, sv.range(), sx.range())));
        }
        if (route == 6 && !a.uniform) {
            const double* p = a.x.data();
            const double* q = v.data();
            return FnPtr(
                new Fn<1, O>(F(a.periodic, std::make_pair(q, q + v.size()),
                               std::make_pair(p, p + a.x.size()))));
        }
        return FnPtr();
    }
    static TplPtr make_tpl(const Grid& g, int route) {
        const Axis& a = g.ax[0];
        size_t n = mesh_shape<1>(g)[0];
        auto xr = std::make_pair(a.x.begin(), a.x.end());
        auto ur = std::make_pair(a.a, a.b);
        if (route == 1) {
            if (default_range(a))
                return TplPtr(new Tpl<1, O>(
                    g, static_cast<TplT<1, O>&&>(T1(n, a.periodic))));
            if (a.uniform)
                return TplPtr(new Tpl<1, O>(
                    g, static_cast<TplT<1, O>&&>(T1(ur, n, a.periodic))));
            return TplPtr(new Tpl<1, O>(
                g, static_cast<TplT<1, O>&&>(T1(xr, n, a.periodic))));
        }
        if (route == 2) {
            if (!a.periodic)
                return a.uniform
                           ? TplPtr(new Tpl<1, O>(g, TplT<1, O>(n, ur)))
                           : TplPtr(new Tpl<1, O>(g, TplT<1, O>(n, xr)));
            return a.uniform
                       ? TplPtr(new Tpl<1, O>(g, TplT<1, O>(true, n, ur)))
                       : TplPtr(new Tpl<1, O>(g, TplT<1, O>(true, n, xr)));
        }
        return TplPtr();
    }
};

template <size_t D, size_t O>
TplPtr make_tpl(const Grid& g, int route) {
    if (auto p = OneD<D, O>::make_tpl(g, route)) return p;
    TplMaker<D, O> k{g, route, TplPtr()};
    Ranges<0, D>::go(g, k);
    return std::move(k.out);
}

// routes: 0 direct; 1,2,5,6,8 one dimensional conveniences; 3 template, lvalue;
// 4 constructors without periodicity; 7 template rvalue / into
template <size_t D, size_t O>
FnPtr make_fn(const Grid& g, const Data& f, int route) {
    if (auto p = OneD<D, O>::make(g, f, route)) return p;
    if (route == 3) return make_tpl<D, O>(g, 4)->interpolate(f, 0);
    if (route == 7) {
        auto t = make_tpl<D, O>(g, 1);
        FnPtr p(new Fn<D, O>());
        t->interpolate_into(*p, f, 3);
        return p;
    }
    FnMaker<D, O> k{g, f, route, FnPtr()};
    Ranges<0, D>::go(g, k);
    return std::move(k.out);
}

template <size_t D, size_t O>
FnPtr make_empty() {
    return FnPtr(new Fn<D, O>());
}

template <size_t... Os>
struct Reg {
    static int all() {
        int dummy[] = {one<Os>()...};
        return dummy[0];
    }
    template <size_t O>
    static int one() {
        Backend b;
        b.cfg = CFG_ID;
        b.dim = VDIM;
        b.order = O;
#ifdef INTP_MULTITHREAD
        b.multithread = true;
#else
        b.multithread = false;
#endif
#ifdef INTP_CELL_LAYOUT
        b.cell = true;
#else
        b.cell = false;
#endif
#ifdef INTP_ENABLE_ASSERTION
        b.assertion = true;
#else
        b.assertion = false;
#endif
        b.no_dummy = NO_DUMMY;
        b.std_ = __cplusplus;
        b.make = &make_fn<VDIM, O>;
        b.make_tpl = &make_tpl<VDIM, O>;
        b.make_empty = &make_empty<VDIM, O>;
        registry().push_back(b);
        return 0;
    }
};
const int registered = Reg<VORDERS>::all();
}  // namespace

// -DCFG_ID=k -DTYP=t
#include <Interpolation.hpp>

#include <complex>

#include "ty_api.hpp"

namespace {
using std::size_t;
using ty::R;

template <typename S, size_t N>
struct Vec {
    S v[N] = {};
    Vec& operator+=(const Vec& o) {
        for (size_t i = 0; i < N; ++i) v[i] += o.v[i];
        return *this;
    }
    Vec& operator-=(const Vec& o) {
        for (size_t i = 0; i < N; ++i) v[i] -= o.v[i];
        return *this;
    }
    Vec& operator*=(S s) {
        for (size_t i = 0; i < N; ++i) v[i] *= s;
        return *this;
    }
    Vec& operator/=(S s) {
        for (size_t i = 0; i < N; ++i) v[i] /= s;
        return *this;
    }
    friend Vec operator*(S s, const Vec& a) {
        Vec r(a);
        return r *= s;
    }
    friend Vec operator*(const Vec& a, S s) {
        Vec r(a);
        return r *= s;
    }
    friend Vec operator+(const Vec& a, const Vec& b) {
        Vec r(a);
        return r += b;
    }
    friend Vec operator-(const Vec& a, const Vec& b) {
        Vec r(a);
        return r -= b;
    }
    friend Vec operator/(const Vec& a, S s) {
        Vec r(a);
        return r /= s;
    }
};

template <typename T>
struct Comp {
    static constexpr size_t n = 1;
    static constexpr bool der = true;
    using S = T;
    static T make(const R* c) { return static_cast<T>(c[0]); }
    static void put(const T& v, R* o) { o[0] = v; }
};
template <typename U>
struct Comp<std::complex<U>> {
    static constexpr size_t n = 2;
    static constexpr bool der = true;
    using S = U;
    static std::complex<U> make(const R* c) {
        return std::complex<U>(static_cast<U>(c[0]), static_cast<U>(c[1]));
    }
    static void put(const std::complex<U>& v, R* o) {
        o[0] = v.real();
        o[1] = v.imag();
    }
};
template <typename U, size_t N>
struct Comp<Vec<U, N>> {
    static constexpr size_t n = N;
    static constexpr bool der = false;
    using S = U;
    static Vec<U, N> make(const R* c) {
        Vec<U, N> r;
        for (size_t i = 0; i < N; ++i) r.v[i] = static_cast<U>(c[i]);
        return r;
    }
    static void put(const Vec<U, N>& v, R* o) {
        for (size_t i = 0; i < N; ++i) o[i] = v.v[i];
    }
};

#if TYP == 0
using TV = float;
using TU = float;
#define TNAME "float/float"
#elif TYP == 1
using TV = float;
using TU = double;
#define TNAME "float/double"
#elif TYP == 2
using TV = double;
using TU = float;
#define TNAME "double/float"
#elif TYP == 3
using TV = long double;
using TU = long double;
#define TNAME "long double/long double"
#elif TYP == 4
using TV = std::complex<double>;
using TU = double;
#define TNAME "complex<double>/double"
#elif TYP == 5
using TV = std::complex<float>;
using TU = float;
#define TNAME "complex<float>/float"
#elif TYP == 6
using TV = Vec<double, 3>;
using TU = double;
#define TNAME "vector3/double"
#elif TYP == 7
using TV = long double;
using TU = double;
#define TNAME "long double/double"
#elif TYP == 8
using TV = double;
using TU = long double;
#define TNAME "double/long double"
#elif TYP == 9
using TV = std::complex<long double>;
using TU = long double;
#define TNAME "complex<long double>/long double"
#elif TYP == 10
using TV = double;
using TU = double;
#define TNAME "double/double"
#endif

#ifdef INTP_PERIODIC_NO_DUMMY_POINT
constexpr bool NO_DUMMY = true;
#else
constexpr bool NO_DUMMY = false;
#endif

template <size_t N, size_t... I>
struct seq : seq<N - 1, N - 1, I...> {};
template <size_t... I>
struct seq<0, I...> {};

template <size_t D, size_t O>
using FT = intp::InterpolationFunction<TV, D, O, TU>;
template <size_t D, size_t O>
using TT = intp::InterpolationFunctionTemplate<TV, D, O, TU>;

template <bool Has>
struct Der {
    template <typename F, size_t D>
    static TV arr(const F& f, std::array<TU, D> x, std::array<size_t, D> k) {
        return f.derivative(x, k);
    }
    template <typename F, size_t D, size_t... I>
    static TV args(const F& f, std::array<TU, D> x, std::array<size_t, D> k,
                   seq<0, I...>) {
        return f.derivative(x, k[I]...);
    }
    template <typename F, size_t D, size_t... I>
    static TV pairs(const F& f, std::array<TU, D> x, std::array<size_t, D> k,
                    seq<0, I...>) {
        return f.derivative(std::make_pair(x[I], k[I])...);
    }
};
template <>
struct Der<false> {
    template <typename F, size_t D>
    static TV arr(const F&, std::array<TU, D>, std::array<size_t, D>) {
        return TV{};
    }
    template <typename F, size_t D, typename Q>
    static TV args(const F&, std::array<TU, D>, std::array<size_t, D>, Q) {
        return TV{};
    }
    template <typename F, size_t D, typename Q>
    static TV pairs(const F&, std::array<TU, D>, std::array<size_t, D>, Q) {
        return TV{};
    }
};

template <size_t D, size_t O>
struct Fn final : ty::IFn {
    FT<D, O> f;
#ifdef INTP_CELL_LAYOUT
    TT<D, O> t;
    Fn(FT<D, O>&& o, const TT<D, O>& tt) : f(std::move(o)), t(tt) {}
#else
    explicit Fn(FT<D, O>&& o) : f(std::move(o)) {}
#endif
    static std::array<TU, D> arr(const R* x) {
        std::array<TU, D> a{};
        for (size_t d = 0; d < D; ++d) a[d] = static_cast<TU>(x[d]);
        return a;
    }
    template <size_t... I>
    TV var(seq<0, I...>, std::array<TU, D> a) const {
        return f(a[I]...);
    }
    void val(const R* x, R* out, int syntax) const override {
        auto a = arr(x);
        Comp<TV>::put(syntax ? var(seq<D>{}, a) : f(a), out);
    }
    void der(const R* x, const size_t* k, R* out, int syntax) const override {
        std::array<size_t, D> kk{};
        for (size_t d = 0; d < D; ++d) kk[d] = k[d];
        using Q = Der<Comp<TV>::der>;
        auto a = arr(x);
        TV v = syntax == 0   ? Q::arr(f, a, kk)
               : syntax == 1 ? Q::args(f, a, kk, seq<D>{})
                             : Q::pairs(f, a, kk, seq<D>{});
        Comp<TV>::put(v, out);
    }
    void proxy(const R* x, R* out) const override {
#ifdef INTP_CELL_LAYOUT
        auto p = t.eval_proxy(arr(x));
        Comp<TV>::put(p(f), out);
#else
        (void)x;
        (void)out;
#endif
    }
    R range_lo(size_t d) const override { return f.range(d).first; }
    R range_hi(size_t d) const override { return f.range(d).second; }
};

template <size_t I, size_t D>
struct Ranges {
    template <typename K, typename... Rs>
    static void go(const vf::Grid& g, const std::vector<std::vector<TU>>& x,
                   K& k, Rs... r) {
        if (g.ax[I].uniform)
            Ranges<I + 1, D>::go(g, x, k, r...,
                                 std::make_pair(x[I].front(), x[I].back()));
        else
            Ranges<I + 1, D>::go(g, x, k, r...,
                                 std::make_pair(x[I].begin(), x[I].end()));
    }
};
template <size_t D>
struct Ranges<D, D> {
    template <typename K, typename... Rs>
    static void go(const vf::Grid&, const std::vector<std::vector<TU>>&, K& k,
                   Rs... r) {
        k(r...);
    }
};

template <size_t D, size_t O>
struct Maker {
    const vf::Grid& g;
    intp::Mesh<TV, D>& m;
    std::array<bool, D> per;
    int route;
    std::unique_ptr<ty::IFn> out;
    template <typename... Rs>
    void operator()(Rs... r) {
#ifdef INTP_CELL_LAYOUT
        TT<D, O> t(per, m.dimension(), r...);
        if (route == 1)
            out.reset(new Fn<D, O>(t.interpolate(m), t));
        else
            out.reset(new Fn<D, O>(FT<D, O>(per, m, r...), t));
#else
        if (route == 1) {
            TT<D, O> t(per, m.dimension(), r...);
            out.reset(new Fn<D, O>(t.interpolate(m)));
        } else
            out.reset(new Fn<D, O>(FT<D, O>(per, m, r...)));
#endif
    }
};

template <size_t D, size_t O>
std::unique_ptr<ty::IFn> make(const vf::Grid& g, const std::vector<R>& f,
                              int route) {
    std::array<size_t, D> shape{};
    std::array<bool, D> per{};
    std::vector<std::vector<TU>> x(D);
    for (size_t d = 0; d < D; ++d) {
        const vf::Axis& a = g.ax[d];
        per[d] = a.periodic;
        shape[d] = a.n + (a.periodic && !NO_DUMMY ? 1 : 0);
        for (auto v : a.xl) x[d].push_back(static_cast<TU>(v));
    }
    constexpr size_t nc = Comp<TV>::n;
    intp::Mesh<TV, D> m{intp::MeshDimension<D>(shape)};
    for (size_t i = 0; i < m.size(); ++i) {
        auto idx = m.dimension().dimwise_indices(i);
        size_t flat = 0;
        bool dummy = false;
        for (size_t d = 0; d < D; ++d) {
            if (idx[d] >= g.ax[d].n) dummy = true;
            flat = flat * g.ax[d].n + idx[d];
        }
        R junk[8] = {77, 77, 77, 77, 77, 77, 77, 77};
        m(idx) = Comp<TV>::make(dummy ? junk : &f[flat * nc]);
    }
    Maker<D, O> k{g, m, per, route, nullptr};
    Ranges<0, D>::go(g, x, k);
    return std::move(k.out);
}

template <size_t D, size_t... Os>
struct Reg {
    static int all() {
        int dummy[] = {one<Os>()...};
        return dummy[0];
    }
    template <size_t O>
    static int one() {
        ty::Backend b;
        b.cfg = CFG_ID;
        b.dim = D;
        b.order = O;
        b.typ = TYP;
        b.name = TNAME;
        b.ncomp = Comp<TV>::n;
        b.eps_val = std::numeric_limits<Comp<TV>::S>::epsilon();
        b.eps_coord = std::numeric_limits<TU>::epsilon();
        b.has_der = Comp<TV>::der;
#ifdef INTP_CELL_LAYOUT
        b.has_proxy = true;
#else
        b.has_proxy = false;
#endif
        b.make = &make<D, O>;
        ty::registry().push_back(b);
        return 0;
    }
};
const int r1 = Reg<1, 0, 1, 2, 3, 4, 5>::all();
const int r2 = Reg<2, 1, 2, 3>::all();
const int r3 = Reg<3, 1, 2>::all();
}  // namespace

// Band matrices and their LU solvers against a dense long double model.
#include <BandLU.hpp>
#include <aligned-allocator.hpp>

#include <complex>
#include <deque>
#include <string>

#include "pbt.hpp"

using pbt::Ctx;
using std::size_t;
using R = long double;

namespace {

template <typename T>
struct Tr {
    using Real = T;
    static constexpr bool cplx = false;
    static T make(R a, R) { return static_cast<T>(a); }
};
template <typename U>
struct Tr<std::complex<U>> {
    using Real = U;
    static constexpr bool cplx = true;
    static std::complex<U> make(R a, R b) {
        return {static_cast<U>(a), static_cast<U>(b)};
    }
};
using CR = std::complex<R>;
template <typename T>
CR wide(T v) {
    return CR(static_cast<R>(v));
}
template <typename U>
CR wide(std::complex<U> v) {
    return CR(v.real(), v.imag());
}

// a user vector type as right-hand side
template <typename U>
struct Vec2 {
    U a{}, b{};
    Vec2& operator+=(const Vec2& o) {
        a += o.a;
        b += o.b;
        return *this;
    }
    Vec2& operator-=(const Vec2& o) {
        a -= o.a;
        b -= o.b;
        return *this;
    }
    Vec2& operator/=(U s) {
        a /= s;
        b /= s;
        return *this;
    }
    friend Vec2 operator*(U s, const Vec2& v) {
        Vec2 r;
        r.a = s * v.a;
        r.b = s * v.b;
        return r;
    }
};

struct Dense {
    size_t n = 0;
    std::vector<CR> a;
    std::vector<char> has;
    void init(size_t k) {
        n = k;
        a.assign(k * k, CR(0));
        has.assign(k * k, 0);
    }
    CR& operator()(size_t i, size_t j) { return a[i * n + j]; }
    const CR& operator()(size_t i, size_t j) const { return a[i * n + j]; }
    // LU without pivoting; W = |L||U|; false when not stable
    bool factor(std::vector<R>& W) const {
        std::vector<CR> f = a;
        R amax = 0;
        for (auto& v : a) amax = std::max(amax, std::abs(v));
        for (size_t k = 0; k < n; ++k) {
            R piv = std::abs(f[k * n + k]);
            if (!(piv > 1e-6L * amax)) return false;
            for (size_t i = k + 1; i < n; ++i) {
                if (f[i * n + k] == CR(0)) continue;
                f[i * n + k] /= f[k * n + k];
                for (size_t j = k + 1; j < n; ++j)
                    f[i * n + j] -= f[i * n + k] * f[k * n + j];
            }
        }
        for (auto& v : f)
            if (!(std::abs(v) < 1e4L * (amax + 1))) return false;
        W.assign(n * n, 0);
        for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j < n; ++j) {
                size_t m = std::min(i, j);
                for (size_t k = 0; k <= m; ++k) {
                    R l = k == i ? 1 : std::abs(f[i * n + k]);
                    W[i * n + j] += l * std::abs(f[k * n + j]);
                }
            }
        return true;
    }
};

template <typename Mat>
struct IsExt : std::false_type {};
template <typename... Ts>
struct IsExt<intp::ExtendedBandMatrix<Ts...>> : std::true_type {};

template <typename Mat>
struct Run {
    using T = typename Mat::val_type;
    using Real = typename Tr<T>::Real;
    static constexpr bool ext = IsExt<Mat>::value;
    static constexpr R eps = std::numeric_limits<Real>::epsilon();
    Ctx& ctx;
    size_t n = 1, p = 0, q = 0;
    Dense A;
    std::string log;

    explicit Run(Ctx& c) : ctx(c) {}
    [[noreturn]] void bad(const std::string& s) {
        ctx.describe(log);
        ctx.fail(s);
    }

    bool main_band(size_t i, size_t j) const {
        return j + p >= i && i + q >= j;
    }
    bool side_band(size_t i, size_t j) const {
        return ext && !main_band(i, j) && (j + p >= n || i + q >= n) &&
               (j > i + q ? j + p >= n : i + q >= n);
    }
    bool in_band(size_t i, size_t j) const {
        return main_band(i, j) || side_band(i, j);
    }

    R num(bool tidy) {
        return tidy ? static_cast<R>(ctx.g.range(-4, 4))
                    : static_cast<R>(static_cast<Real>(ctx.g.uniform(-1, 1)));
    }
    T elem(bool tidy) {
        R a = num(tidy), b = Tr<T>::cplx ? num(tidy) : 0;
        return Tr<T>::make(a, b);
    }

    // values of a stably factorable matrix
    void gen_values(std::vector<T>& v) {
        v.assign(n * n, T{});
        bool tidy = !ctx.g.coin();
        size_t style = ctx.g.pick({40, 25, 20, 15});
        for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j < n; ++j)
                if (in_band(i, j) && !(style == 2 && ctx.g.coin(1, 3)))
                    v[i * n + j] = elem(tidy);
        static const char* names[] = {"row dominant", "column dominant",
                                      "weakly dominant", "plain"};
        ctx.label(names[style]);
        if (style < 3)
            for (size_t i = 0; i < n; ++i) {
                R s = 0;
                for (size_t j = 0; j < n; ++j)
                    if (j != i)
                        s += std::abs(wide(style == 1 ? v[j * n + i]
                                                      : v[i * n + j]));
                R d = s * (style == 2 ? 0.7L : 1.1L) + 0.5L;
                if (ctx.g.coin()) d = -d;
                v[i * n + i] = Tr<T>::make(d, Tr<T>::cplx ? d / 3 : 0);
            }
        R sc = 1;
        if (ctx.g.coin(1, 4)) sc = std::ldexp(R(1), (int)ctx.g.range(-20, 20));
        for (auto& x : v) x = Tr<T>::make(wide(x).real() * sc, wide(x).imag() * sc);
    }

    void put(Mat& m, size_t i, size_t j, T v) {
        if constexpr (ext) {
            if (ctx.g.coin()) {
                if (main_band(i, j))
                    m.main_bands_val(i, j) = v;
                else
                    m.side_bands_val(i, j) = v;
                return;
            }
        }
        m(i, j) = v;
    }
    T get(const Mat& m, size_t i, size_t j) {
        if constexpr (ext) {
            T a = main_band(i, j) ? m.main_bands_val(i, j)
                                  : m.side_bands_val(i, j);
            Mat& w = const_cast<Mat&>(m);
            T b = main_band(i, j) ? w.main_bands_val(i, j)
                                  : w.side_bands_val(i, j);
            if (a != b || w(i, j) != a) bad("const and mutable access differ");
            if (m(i, j) != a) bad("band access and operator() differ");
            return a;
        } else {
            Mat& w = const_cast<Mat&>(m);
            if (w(i, j) != m(i, j)) bad("const and mutable access differ");
            return m(i, j);
        }
    }

    void check_elements(const Mat& m, const char* when) {
        if (m.dim() != n || m.lower_band_width() != p ||
            m.upper_band_width() != q)
            bad(std::string(when) + ": shape");
        for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j < n; ++j)
                if (in_band(i, j) && wide(get(m, i, j)) != A(i, j))
                    bad(std::string(when) + ": element (" + std::to_string(i) +
                        "," + std::to_string(j) + ")");
    }

    template <typename V>
    void check_product(const Mat& m, const std::vector<V>& x) {
        std::vector<V> y = m * x;
        if (y.size() != n) bad("size of the product");
        R e = std::max<R>(eps, std::numeric_limits<Real>::epsilon());
        for (size_t i = 0; i < n; ++i) {
            CR s = 0;
            R w = 0;
            for (size_t j = 0; j < n; ++j) {
                s += A(i, j) * wide(x[j]);
                w += std::abs(A(i, j)) * std::abs(wide(x[j]));
            }
            R tol = 4 * e * static_cast<R>(p + q + 6) * w;
            if (!(std::abs(wide(y[i]) - s) <= tol)) {
                log += " product row " + std::to_string(i);
                bad("matrix-vector product differs from the dense one");
            }
        }
    }

    // residual against the componentwise backward error bound
    void check_solution(const std::vector<CR>& x, const std::vector<CR>& b,
                        const std::vector<R>& W, const char* how) {
        for (size_t i = 0; i < n; ++i) {
            CR r = -b[i];
            R w = 0, tiny = 1;
            for (size_t j = 0; j < n; ++j) {
                r += A(i, j) * x[j];
                w += W[i * n + j] * std::abs(x[j]);
                tiny += W[i * n + j];
            }
            // components that decay below the smallest normal number
            tiny *= R(std::numeric_limits<Real>::min()) * R(n);
            R unit = eps * static_cast<R>(3 * std::min(n, p + q + 2) + 3) *
                         (w + std::abs(b[i])) + tiny;
            R e = std::abs(r);
            if (unit > 0)
                ctx.maximum("max residual/bound", static_cast<double>(e / unit));
            if (!(e <= 4 * unit) || !std::isfinite(std::abs(x[i]))) {
                log += " row " + std::to_string(i) + " residual " +
                       std::to_string(static_cast<double>(e)) + " allowed " +
                       std::to_string(static_cast<double>(4 * unit));
                bad(std::string("A*x differs from b: ") + how);
            }
        }
    }

    void go() {
        p = ctx.g.below(ctx.g.coin(1, 4) ? 9 : 4);
        q = ctx.g.coin(1, 3) ? p : ctx.g.below(ctx.g.coin(1, 4) ? 9 : 4);
        size_t lo = ext ? std::max(p, q) + 1 : 1;
        n = lo + ctx.g.below(ctx.g.coin(1, 3) ? (ctx.g.coin(1, 60) ? 160 : 40) : 8);
        if (n > 60) ctx.label("large");
        log = (ext ? "extended " : "band ") + std::string("n=") +
              std::to_string(n) + " p=" + std::to_string(p) +
              " q=" + std::to_string(q) + " elem " +
              std::to_string(sizeof(T)) + (Tr<T>::cplx ? " complex" : "");
        ctx.describe(log);
        ctx.label(ext ? "extended" : "band");
        if (n == lo) ctx.label("smallest size");
        A.init(n);
        Mat m(n, p, q);
        check_elements(m, "fresh matrix is zero");
        // random writes, later ones replacing earlier ones
        size_t junk = ctx.g.below(12);
        for (size_t k = 0; k < junk; ++k) {
            size_t i = ctx.g.below(n), j = ctx.g.below(n);
            if (!in_band(i, j)) continue;
            T v = elem(false);
            put(m, i, j, v);
            A(i, j) = wide(v);
        }
        check_elements(m, "after random writes");
        std::vector<T> v;
        gen_values(v);
        std::vector<size_t> order(n * n);
        for (size_t k = 0; k < n * n; ++k) order[k] = k;
        if (n <= 60 && ctx.g.coin())
            for (size_t k = n * n; k-- > 1;)
                std::swap(order[k], order[ctx.g.below(k + 1)]);
        for (size_t k : order)
            if (in_band(k / n, k % n)) {
                put(m, k / n, k % n, v[k]);
                A(k / n, k % n) = wide(v[k]);
            }
        check_elements(m, "after filling");
        // printing shows exactly the elements of the main bands
        // multiplication
        std::vector<T> x(n);
        for (auto& e : x) e = elem(!ctx.g.coin());
        check_product(m, x);
        if (n > 1) {
            std::vector<T> e(n, T{});
            e[ctx.g.below(n)] = Tr<T>::make(1, 0);
            check_product(m, e);
        }
        check_elements(m, "after multiplication");

        std::vector<R> W;
        if (!A.factor(W)) {
            ctx.label("not factorable without pivoting");
            return;
        }
        if (n > 1 && p + q > 0) ctx.nontrivial();
        using LU = intp::BandLU<Mat>;
        LU lu;
        switch (ctx.g.below(4)) {
            case 0: {
                lu.compute(m);
                check_elements(m, "lvalue given to compute");
                break;
            }
            case 1: {
                Mat c(m);
                lu.compute(std::move(c));
                break;
            }
            case 2: {
                const Mat& c = m;
                LU t(c);
                check_elements(m, "lvalue given to the constructor");
                lu = t;
                break;
            }
            default: {
                LU t(Mat{m});
                lu = std::move(t);
            }
        }
        Mat second = m;  // the solver is independent of the matrix
        if (ctx.g.coin()) m(0, 0) = elem(true);
        size_t rounds = 1 + ctx.g.below(4);
        std::vector<T> first_b, first_x;
        for (size_t k = 0; k < rounds; ++k) {
            std::vector<T> b(n);
            for (auto& e : b) e = elem(!ctx.g.coin());
            if (ctx.g.coin(1, 5)) {
                std::fill(b.begin(), b.end(), T{});
                b[ctx.g.below(n)] = Tr<T>::make(1, 0);
            }
            std::vector<CR> bw(n);
            for (size_t i = 0; i < n; ++i) bw[i] = wide(b[i]);
            std::vector<T> sol = solve(lu, b, bw, W);
            if (k == 0) first_b = b, first_x = sol;
            if (ctx.g.coin(1, 4)) {
                LU c(lu);
                std::vector<T> s2 = c.solve(b);
                for (size_t i = 0; i < n; ++i)
                    if (!(s2[i] == sol[i])) bad("copied solver differs");
                if (ctx.g.coin()) lu = c;
            }
        }
        auto again = lu.solve(first_b);
        for (size_t i = 0; i < n; ++i)
            if (!(again[i] == first_x[i]))
                bad("solver gave another answer when reused");
        check_elements(second, "copy of the matrix");
    }

    template <typename LU>
    std::vector<T> solve(const LU& lu, const std::vector<T>& b,
                         const std::vector<CR>& bw, const std::vector<R>& W) {
        std::vector<T> base = lu.solve(b);
        if (base.size() != n) bad("size of the solution");
        std::vector<CR> x(n);
        for (size_t i = 0; i < n; ++i) x[i] = wide(base[i]);
        check_solution(x, bw, W, "solve(vector)");
        for (size_t i = 0; i < n; ++i)
            if (wide(b[i]) != bw[i]) bad("solve changed its argument");
        auto same = [&](T got, size_t i, const char* how) {
            x[i] = wide(got);
            if (i + 1 == n) check_solution(x, bw, W, how);
        };
        switch (ctx.g.below(8)) {
            case 0: {
                std::vector<T> c(b);
                auto r = lu.solve(std::move(c));
                for (size_t i = 0; i < n; ++i) same(r[i], i, "solve(rvalue)");
                break;
            }
            case 1: {
                std::vector<T> c(b);
                lu.solve_in_place(c);
                for (size_t i = 0; i < n; ++i) same(c[i], i, "in place vector");
                break;
            }
            case 2: {
                // guarded buffer
                std::vector<T> c(n + 2, Tr<T>::make(77, 0));
                std::copy(b.begin(), b.end(), c.begin() + 1);
                lu.solve_in_place(c.data() + 1);
                for (size_t i = 0; i < n; ++i)
                    same(c[i + 1], i, "in place pointer");
                if (wide(c[0]) != CR(77) || wide(c[n + 1]) != CR(77))
                    bad("solve_in_place wrote outside the right-hand side");
                break;
            }
            case 3: {
                std::vector<T> c(n + 2, Tr<T>::make(77, 0));
                std::copy(b.begin(), b.end(), c.begin() + 1);
                lu.solve_in_place(c.begin() + 1);
                for (size_t i = 0; i < n; ++i)
                    same(c[i + 1], i, "in place iterator");
                if (wide(c[0]) != CR(77) || wide(c[n + 1]) != CR(77))
                    bad("solve_in_place wrote outside the right-hand side");
                break;
            }
            case 4: {
                std::deque<T> c(b.begin(), b.end());
                auto r = lu.solve(c);
                for (size_t i = 0; i < n; ++i) same(r[i], i, "solve(deque)");
                lu.solve_in_place(c.begin());
                for (size_t i = 0; i < n; ++i) same(c[i], i, "deque iterator");
                break;
            }
            case 5: {  // one axis of a mesh
                size_t d = ctx.g.below(3), o1 = ctx.g.below(3),
                       o2 = ctx.g.below(2);
                std::array<size_t, 3> s{}, at{};
                s[d] = n;
                s[(d + 1) % 3] = 3;
                s[(d + 2) % 3] = 2;
                at[(d + 1) % 3] = o1;
                at[(d + 2) % 3] = o2;
                intp::Mesh<T, 3> mesh{intp::MeshDimension<3>(s)};
                for (size_t i = 0; i < mesh.size(); ++i)
                    mesh(mesh.dimension().dimwise_indices(i)) =
                        Tr<T>::make(R(i), 0);
                for (size_t i = 0; i < n; ++i) {
                    at[d] = i;
                    mesh(at) = b[i];
                }
                lu.solve_in_place(mesh.begin(d, at));
                for (size_t i = 0; i < mesh.size(); ++i) {
                    auto idx = mesh.dimension().dimwise_indices(i);
                    bool on = true;
                    for (size_t e = 0; e < 3; ++e)
                        on &= e == d || idx[e] == at[e];
                    if (on)
                        same(mesh(idx), idx[d], "mesh axis");
                    else if (wide(mesh(idx)) != CR(R(i)) &&
                             wide(mesh(idx)) != wide(Tr<T>::make(R(i), 0)))
                        bad("solving along a mesh axis changed another element");
                }
                break;
            }
            case 6: {  // user vector right-hand side
                if constexpr (!Tr<T>::cplx) {
                    std::vector<Vec2<T>> c(n);
                    for (size_t i = 0; i < n; ++i) {
                        c[i].a = b[i];
                        c[i].b = -2 * b[n - 1 - i];
                    }
                    auto r = lu.solve(c);
                    std::vector<CR> bb(n), xx(n);
                    for (size_t i = 0; i < n; ++i) {
                        same(r[i].a, i, "user vector, first component");
                        bb[i] = wide(c[i].b);
                        xx[i] = wide(r[i].b);
                    }
                    check_solution(xx, bb, W, "user vector, second component");
                }
                break;
            }
            default: {  // complex right-hand side of a real matrix
                if constexpr (!Tr<T>::cplx) {
                    using C = std::complex<T>;
                    std::vector<C> c(n);
                    for (size_t i = 0; i < n; ++i)
                        c[i] = C(b[i], b[n - 1 - i]);
                    auto r = lu.solve(c);
                    std::vector<CR> bb(n), xx(n);
                    for (size_t i = 0; i < n; ++i) {
                        bb[i] = wide(c[i]);
                        xx[i] = wide(r[i]);
                    }
                    check_solution(xx, bb, W, "complex right-hand side");
                }
            }
        }
        return base;
    }
};

template <typename T>
void pick(Ctx& ctx) {
    switch (ctx.g.below(4)) {
        case 0: return Run<intp::BandMatrix<T>>(ctx).go();
        case 1: return Run<intp::ExtendedBandMatrix<T>>(ctx).go();
        case 2:
            return Run<intp::BandMatrix<T, intp::AlignedAllocator<T>>>(ctx).go();
        default:
            return Run<intp::ExtendedBandMatrix<T, intp::AlignedAllocator<T>>>(
                       ctx)
                .go();
    }
}
}  // namespace

#if PART == 1
void part1(Ctx& c) { pick<double>(c); }
#elif PART == 2
void part2(Ctx& c) { pick<float>(c); }
#elif PART == 3
void part3(Ctx& c) { pick<long double>(c); }
#elif PART == 4
void part4(Ctx& c) { pick<std::complex<double>>(c); }
#else
void part1(Ctx&);
void part2(Ctx&);
void part3(Ctx&);
void part4(Ctx&);
static void body(Ctx& ctx) {
    switch (ctx.g.pick({5, 2, 2, 3})) {
        case 0: return part1(ctx);
        case 1: return part2(ctx);
        case 2: return part3(ctx);
        default: return part4(ctx);
    }
}
const pbt::Property& pbt::property() {
    static pbt::Property p = {
        "C15",
        "band or cyclically extended band matrix of random size, bandwidths, "
        "element type and allocator, filled in random order with random "
        "overwrites; elements, products and solutions (vector, pointer, "
        "iterator, deque, mesh axis, user vector, complex) compared with a "
        "dense long double model through the componentwise backward error "
        "bound; non-trivial: factorable without pivoting, n > 1, p + q > 0",
        body};
    return p;
}
#endif

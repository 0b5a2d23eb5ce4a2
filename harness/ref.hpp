// Reference model: the tensor product B-spline interpolant computed naively in
// long double, written from the mathematical definition (knots by Mathematica's
// rule, Cox-de Boor, dense collocation matrix inverted with pivoting), plus a
// running error bound for an implementation working in a narrower type.
#pragma once
#include <array>
#include <cmath>
#include <limits>
#include <string>
#include <vector>

#include "api.hpp"

namespace ref {
using R = long double;
using std::size_t;
using vf::Axis;
using vf::Grid;

// values of the p+1 basis functions of degree O (k-th derivative) that are
// non-zero on segment [t[s], t[s+1]], as polynomials in x; T(i) gives knot i.
// abs[] bounds the sum of magnitudes met on the way.
template <typename T>
void basis(T&& t, long s, int O, int k, R x, std::vector<R>& v,
           std::vector<R>& a) {
    int p = O - k;
    v.assign(static_cast<size_t>(O + 1), 0);
    a.assign(static_cast<size_t>(O + 1), 0);
    if (p < 0) return;
    // v[j], j=0..q : basis function index s-q+j of degree q
    v[0] = a[0] = 1;
    std::vector<R> nv(v.size()), na(v.size());
    for (int q = 1; q <= p; ++q) {
        for (int j = 0; j <= q; ++j) {
            long i = s - q + j;  // function index, support t[i]..t[i+q+1]
            R x1 = 0, y1 = 0;
            if (j > 0) {
                R den = t(i + q) - t(i);
                if (den > 0) {
                    x1 += (x - t(i)) / den * v[size_t(j - 1)];
                    y1 += std::fabs((x - t(i)) / den) * a[size_t(j - 1)];
                }
            }
            if (j < q) {
                R den = t(i + q + 1) - t(i + 1);
                if (den > 0) {
                    x1 += (t(i + q + 1) - x) / den * v[size_t(j)];
                    y1 += std::fabs((t(i + q + 1) - x) / den) * a[size_t(j)];
                }
            }
            nv[size_t(j)] = x1;
            na[size_t(j)] = y1;
        }
        std::copy(nv.begin(), nv.begin() + q + 1, v.begin());
        std::copy(na.begin(), na.begin() + q + 1, a.begin());
    }
    for (int q = p + 1; q <= O; ++q) {
        for (int j = 0; j <= q; ++j) {
            long i = s - q + j;
            R x1 = 0, y1 = 0;
            if (j > 0) {
                R den = t(i + q) - t(i);
                if (den > 0) {
                    x1 += R(q) / den * v[size_t(j - 1)];
                    y1 += R(q) / den * a[size_t(j - 1)];
                }
            }
            if (j < q) {
                R den = t(i + q + 1) - t(i + 1);
                if (den > 0) {
                    x1 -= R(q) / den * v[size_t(j)];
                    y1 += R(q) / den * a[size_t(j)];
                }
            }
            nv[size_t(j)] = x1;
            na[size_t(j)] = y1;
        }
        std::copy(nv.begin(), nv.begin() + q + 1, v.begin());
        std::copy(na.begin(), na.begin() + q + 1, a.begin());
    }
}

struct RefAxis {
    int O = 0;
    size_t n = 0;
    bool per = false;
    std::vector<R> x;      // abscissae
    std::vector<R> tk;     // aperiodic: knots
    R period = 0, t0 = 0;  // periodic
    std::vector<R> inv;    // n x n, inverse collocation matrix
    R K = 1;               // its infinity norm
    R rho = 1;             // growth of LU without pivoting
    R hmin = 0, X = 0;
    // largest ratio of magnitude to gap among neighbouring abscissae: what a
    // rounding error of a knot amounts to
    R sens = 0;
    bool ok = true;

    R absc(long i) const {  // periodic extension
        long N = static_cast<long>(n);
        long w = i >= 0 ? i / N : -((-i + N - 1) / N);
        return x[static_cast<size_t>(i - w * N)] + static_cast<R>(w) * period;
    }
    R knot(long i) const {
        if (!per) return tk[static_cast<size_t>(i)];
        return O % 2 ? absc(i) : (absc(i) + absc(i + 1)) / 2;
    }

    explicit RefAxis() {}
    RefAxis(const Axis& a, int order, bool invert = true)
        : O(order), n(a.n), per(a.periodic) {
        size_t m = a.n + (per ? 1 : 0);
        x.resize(m);
        if (a.uniform) {
            R lo = a.xl.empty() ? R(a.a) : a.xl[0];
            R hi = a.xl.empty() ? R(a.b) : a.xl[1];
            R dx = (hi - lo) / R(m - 1);
            for (size_t i = 0; i < m; ++i) x[i] = lo + R(i) * dx;
            x[m - 1] = hi;
        } else {
            for (size_t i = 0; i < m; ++i)
                x[i] = a.xl.empty() ? R(a.x[i]) : a.xl[i];
        }
        X = std::max(std::fabs(x[0]), std::fabs(x[m - 1]));
        hmin = std::numeric_limits<R>::infinity();
        for (size_t i = 0; i + 1 < m; ++i)
            hmin = std::min(hmin, x[i + 1] - x[i]);
        sens = X / hmin;
        if (!per && !a.uniform) {
            sens = 0;
            size_t w = size_t(O) + 1;
            for (size_t i = 0; i < m; ++i) {
                R mag = 0, gap = std::numeric_limits<R>::infinity();
                for (size_t j = i; j < std::min(m, i + w + 1); ++j) {
                    mag = std::max(mag, std::fabs(x[j]));
                    if (j > i) gap = std::min(gap, x[j] - x[j - 1]);
                }
                if (m > 1 && i + 1 < m) sens = std::max(sens, mag / gap);
            }
        }
        if (per) {
            period = x[n] - x[0];
            t0 = knot(0);
        } else {
            tk.resize(n + size_t(O) + 1);
            for (int i = 0; i <= O; ++i) {
                tk[size_t(i)] = x[0];
                tk[n + size_t(i)] = x[n - 1];
            }
            for (size_t i = size_t(O) + 1; i < n; ++i) {
                if (O == 0) {
                    tk[i] = (x[i - 1] + x[i]) / 2;
                } else {
                    R s = 0;
                    for (size_t k = i - size_t(O); k < i; ++k) s += x[k];
                    tk[i] = s / R(O);
                }
            }
        }
        if (invert) build();
    }

    // index of basis function -> coefficient index
    size_t wrap(long i) const {
        if (!per) return static_cast<size_t>(i);
        long N = static_cast<long>(n);
        // coefficient c belongs to the basis function centred at datum
        // c - O/2 (this is only a labelling)
        i += (O + 2) / 2 + O / 2;
        return static_cast<size_t>(((i % N) + N) % N);
    }

    R reduce(R c) const {
        if (!per) return c;
        R w = std::floor((c - t0) / period);
        R y = c - w * period;
        if (y < t0) y += period;
        if (y >= t0 + period) y -= period;
        return y;
    }

    // segment containing (reduced) c
    long segment(R c) const {
        if (per) {
            long s = 0;
            while (s + 1 < static_cast<long>(n) && knot(s + 1) <= c) ++s;
            return s;
        }
        long lo = O, hi = static_cast<long>(n) - 1;  // last segment: tk[n-1..n]
        long s = lo;
        while (s < hi && knot(s + 1) <= c) ++s;
        return s;
    }

    void build() {
        std::vector<R> A(n * n, 0), v, a;
        for (size_t r = 0; r < n; ++r) {
            // row r: datum index
            long di = per ? static_cast<long>(r) - O / 2 : static_cast<long>(r);
            R c = per ? reduce(absc(di)) : x[r];
            long s = segment(c);
            if (per) {
                // the datum's place among the knots is known exactly
                long N = static_cast<long>(n);
                long m = ((di % N) + N) % N;
                if (O % 2) {
                    s = m;
                    c = absc(m);
                } else {
                    s = m - 1;
                    c = absc(m);
                    if (s < 0) {
                        s += N;
                        c += period;
                    }
                }
            }
            basis([this](long i) { return knot(i); }, s, O, 0, c, v, a);
            for (int j = 0; j <= O; ++j)
                A[r * n + wrap(s - O + j)] += v[size_t(j)];
        }
        if (!per) {
            for (size_t c = 0; c < n; ++c) A[c] = A[(n - 1) * n + c] = 0;
            A[0] = A[n * n - 1] = 1;
        }
        // growth without pivoting
        if (per) {
            std::vector<R> lu = A;
            R g = 0, mx = 0;
            for (auto e : A) mx = std::max(mx, std::fabs(e));
            for (size_t k = 0; k + 1 < n; ++k) {
                R pv = lu[k * n + k];
                if (pv == 0 || !std::isfinite(double(pv))) {
                    ok = false;
                    break;
                }
                for (size_t i = k + 1; i < n; ++i) {
                    R l = lu[i * n + k] / pv;
                    if (l == 0) continue;
                    lu[i * n + k] = l;
                    for (size_t j = k + 1; j < n; ++j)
                        lu[i * n + j] -= l * lu[k * n + j];
                }
            }
            for (size_t i = 0; i < n && ok; ++i)
                for (size_t j = 0; j < n; ++j) {
                    R s = 0;
                    for (size_t k = 0; k <= std::min(i, j); ++k)
                        s += std::fabs((k == i ? R(1) : lu[i * n + k]) *
                                       lu[k * n + j]);
                    g = std::max(g, s);
                }
            rho = std::max(R(1), g / mx);
        }
        // inverse with partial pivoting
        inv.assign(n * n, 0);
        for (size_t i = 0; i < n; ++i) inv[i * n + i] = 1;
        for (size_t k = 0; k < n; ++k) {
            size_t pr = k;
            for (size_t i = k + 1; i < n; ++i)
                if (std::fabs(A[i * n + k]) > std::fabs(A[pr * n + k])) pr = i;
            if (A[pr * n + k] == 0) {
                ok = false;
                return;
            }
            if (pr != k)
                for (size_t j = 0; j < n; ++j) {
                    std::swap(A[pr * n + j], A[k * n + j]);
                    std::swap(inv[pr * n + j], inv[k * n + j]);
                }
            R d = A[k * n + k];
            for (size_t j = 0; j < n; ++j) {
                A[k * n + j] /= d;
                inv[k * n + j] /= d;
            }
            for (size_t i = 0; i < n; ++i) {
                if (i == k) continue;
                R m = A[i * n + k];
                if (m == 0) continue;
                for (size_t j = 0; j < n; ++j) {
                    A[i * n + j] -= m * A[k * n + j];
                    inv[i * n + j] -= m * inv[k * n + j];
                }
            }
        }
        for (size_t i = 0; i < n; ++i) {
            R s = 0;
            for (size_t j = 0; j < n; ++j) s += std::fabs(inv[i * n + j]);
            K = std::max(K, s);
        }
        // first order error bounds mean nothing for a system this bad
        if (!(K * rho < 1e12L)) ok = false;
        // columns of inv are indexed by row r, i.e. datum r - O/2 if periodic
    }
    size_t row_of_datum(size_t i) const {
        return per ? (i + size_t(O / 2)) % n : i;
    }
};

struct Local {
    std::vector<size_t> idx;
    std::vector<R> v, a;
    R G = 0;  // sum of a
};

struct Value {
    R v = 0;
    R tol = 0;
};

class Spline {
   public:
    int O = 0;
    std::vector<RefAxis> ax;
    std::vector<R> c;  // control points, row major, row_of_datum order
    R cmax = 0, fmax = 0;
    bool ok = true;

    Spline() {}
    Spline(const Grid& g, int order) : O(order) {
        for (auto& a : g.ax) {
            ax.emplace_back(a, order);
            ok = ok && ax.back().ok;
        }
    }
    Spline(const Grid& g, int order, const std::vector<double>& f)
        : Spline(g, order) {
        load(f);
    }
    template <typename V>
    void load(const std::vector<V>& f) {
        if (!ok) return;
        size_t D = ax.size(), total = f.size();
        c.assign(total, 0);
        fmax = 0;
        // permute into row order
        for (size_t i = 0; i < total; ++i) {
            size_t r = i, flat = 0, mul = 1;
            for (size_t d = D; d-- > 0;) {
                flat += ax[d].row_of_datum(r % ax[d].n) * mul;
                mul *= ax[d].n;
                r /= ax[d].n;
            }
            c[flat] = f[i];
            fmax = std::max(fmax, std::fabs(c[flat]));
        }
        size_t stride = 1;
        for (size_t d = D; d-- > 0;) {
            size_t n = ax[d].n;
            std::vector<R> line(n);
            for (size_t i = 0; i < total; ++i) {
                if ((i / stride) % n) continue;
                for (size_t r = 0; r < n; ++r) {
                    R s = 0;
                    for (size_t k = 0; k < n; ++k)
                        s += ax[d].inv[r * n + k] * c[i + k * stride];
                    line[r] = s;
                }
                for (size_t r = 0; r < n; ++r) c[i + r * stride] = line[r];
            }
            stride *= n;
        }
        cmax = 0;
        for (auto v : c) cmax = std::max(cmax, std::fabs(v));
    }

    // relative condition: rounding unit is multiplied by this
    R cond() const {
        R k = 1;
        for (auto& a : ax) k *= a.K * a.rho;
        return k;
    }

    Local local(size_t d, R x, int k, long seg) const {
        const RefAxis& a = ax[d];
        Local l;
        basis([&a](long i) { return a.knot(i); }, seg, O, k, x, l.v, l.a);
        for (int j = 0; j <= O; ++j) l.idx.push_back(a.wrap(seg - O + j));
        for (auto e : l.a) l.G += e;
        return l;
    }

    Value combine(const std::vector<Local>& l) const {
        size_t D = ax.size(), m = size_t(O) + 1, total = 1;
        for (size_t d = 0; d < D; ++d) total *= m;
        Value r;
        for (size_t i = 0; i < total; ++i) {
            size_t q = i, flat = 0, mul = 1;
            R w = 1;
            for (size_t d = D; d-- > 0;) {
                size_t j = q % m;
                q /= m;
                w *= l[d].v[j];
                flat += l[d].idx[j] * mul;
                mul *= ax[d].n;
            }
            r.v += w * c[flat];
        }
        r.tol = cmax;
        for (size_t d = 0; d < D; ++d) r.tol *= l[d].G;
        return r;
    }

    // All acceptable values at a coordinate: one, or more when a discontinuity
    // lies within rounding distance.  tol already includes conditioning; it is
    // to be multiplied by (constant * eps).
    template <typename XT>
    std::vector<Value> eval(const XT* x, const size_t* k, R eps) const {
        size_t D = ax.size();
        std::vector<std::vector<Local>> cand(D);
        R S = 1, cnd = cond();
        for (size_t d = 0; d < D; ++d) {
            const RefAxis& a = ax[d];
            int kd = k ? static_cast<int>(k[d]) : 0;
            if (kd > O) return {Value{}};
            R xx = x[d];
            R mag = std::max(a.X, std::fabs(xx));
            // the period is the rounded difference of two abscissae, its error
            // accumulates with the number of periods wrapped
            if (a.per) mag += a.X * std::fabs(xx - a.t0) / a.period;
            bool in = !a.per && xx >= a.x.front() && xx <= a.x.back();
            S += R(O + 1) * (in ? a.sens : std::max(a.sens, mag / a.hmin));
            R y = a.reduce(xx);
            long s = a.segment(y);
            cand[d].push_back(local(d, y, kd, s));
            if (kd >= O) {
                // piecewise constant: neighbours within rounding distance
                R delta = 16 * eps * mag;
                long lo = a.per ? s - 1 : std::max<long>(O, s - 1);
                long hi = a.per ? s + 1
                                : std::min<long>(static_cast<long>(a.n) - 1,
                                                 s + 1);
                if (lo < s && y - a.knot(s) <= delta)
                    cand[d].push_back(local(d, y, kd, lo));
                if (hi > s && a.knot(s + 1) - y <= delta)
                    cand[d].push_back(local(d, y, kd, hi));
            }
        }
        std::vector<Value> out;
        std::vector<size_t> ch(D, 0);
        for (;;) {
            std::vector<Local> l;
            for (size_t d = 0; d < D; ++d) l.push_back(cand[d][ch[d]]);
            Value v = combine(l);
            v.tol *= S * cnd;
            out.push_back(v);
            size_t d = 0;
            while (d < D && ++ch[d] == cand[d].size()) ch[d++] = 0;
            if (d == D) break;
        }
        return out;
    }

    // distance to the best acceptable value in units of eps * bound
    struct Match {
        bool ok;
        R err, unit, val;
    };
    template <typename XT>
    Match match(R got, const XT* x, const size_t* k, R eps, R C) const {
        Match best{false, 0, 0, 0};
        bool first = true;
        for (auto& v : eval(x, k, eps)) {
            R unit = eps * v.tol;
            R e = std::fabs(got - v.v);
            bool good = e <= C * unit + tiny();
            if (first || (good && !best.ok) ||
                (good == best.ok && e < best.err)) {
                best = Match{good, e, unit, v.v};
                first = false;
            }
        }
        if (!std::isfinite(static_cast<long double>(got))) best.ok = false;
        return best;
    }
    // bound on absolute error at x (no constant)
    template <typename XT>
    R unit(const XT* x, const size_t* k, R eps) const {
        R u = 0;
        for (auto& v : eval(x, k, eps)) u = std::max(u, eps * v.tol);
        return u;
    }
    R tiny() const { return fmax * 1e-300L; }
};

}  // namespace ref

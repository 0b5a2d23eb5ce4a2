// -DCFG_ID=k -DVDIM=d -DVORDERS=0,1,2
#include <Interpolation.hpp>

#include "bs_api.hpp"

namespace {
using std::size_t;

template <size_t N, size_t... I>
struct seq : seq<N - 1, N - 1, I...> {};
template <size_t... I>
struct seq<0, I...> {};

template <size_t D, size_t O>
struct Spl final : bs::ISpl {
    using S = intp::BSpline<double, D, O, double>;
    S s;
    explicit Spl(const S& o) : s(o) {}
    explicit Spl(S&& o) : s(std::move(o)) {}
    double val(const double* x) const override {
        std::array<double, D> a{};
        for (size_t d = 0; d < D; ++d) a[d] = x[d];
        return s(a);
    }
    static std::array<std::pair<double, size_t>, D> hinted(const double* x,
                                                           const size_t* h) {
        std::array<std::pair<double, size_t>, D> a;
        for (size_t d = 0; d < D; ++d)
            a[d] = std::pair<double, size_t>(x[d], h[d]);
        return a;
    }
    double val(const double* x, const size_t* h) const override {
        return s(hinted(x, h));
    }
    double der(const double* x, const size_t* k) const override {
        return s.derivative_at(hinted(x, k));
    }
    double der(const double* x, const size_t* h,
               const size_t* k) const override {
        std::array<std::tuple<double, size_t, size_t>, D> a;
        for (size_t d = 0; d < D; ++d)
            a[d] = std::make_tuple(x[d], h[d], k[d]);
        return s.derivative_at(a);
    }
#ifdef INTP_CELL_LAYOUT
    bool has_pre() const override { return true; }
    double pre(const double* x, const size_t* h) const override {
        auto p = s.pre_calc_coef(hinted(x, h));
        return p(s);
    }
#else
    bool has_pre() const override { return false; }
    double pre(const double*, const size_t*) const override { return 0; }
#endif
    std::string describe_mismatch(const bs::Desc& d) const override {
        for (size_t i = 0; i < D; ++i) {
            auto& k = d.knots[i];
            if (s.knots_num(i) != k.size()) return "knots_num";
            if (static_cast<size_t>(s.knots_end(i) - s.knots_begin(i)) !=
                k.size())
                return "knots_end - knots_begin";
            for (size_t j = 0; j < k.size(); ++j)
                if (s.knots_begin(i)[static_cast<std::ptrdiff_t>(j)] != k[j])
                    return "knots";
            if (s.range(i).first != k[O]) return "range().first";
            if (s.range(i).second != k[k.size() - O - 1])
                return "range().second";
            if (s.periodicity(i) != (d.periodic[i] != 0)) return "periodicity";
        }
        if (s.get_order() != O) return "get_order";
#ifndef INTP_CELL_LAYOUT
        if (s.control_points().size() != d.c.size()) return "control points";
        size_t i = 0;
        for (auto v : s.control_points())
            if (v != d.c[i++]) return "control points";
        for (size_t e = 0; e < D; ++e)
            if (s.control_points().dim_size(e) != d.n[e])
                return "control point shape";
#endif
        return "";
    }
    std::unique_ptr<bs::ISpl> clone() const override {
        return std::unique_ptr<bs::ISpl>(new Spl(s));
    }
    std::unique_ptr<bs::ISpl> move_out() override {
        return std::unique_ptr<bs::ISpl>(new Spl(std::move(s)));
    }
};

template <size_t D, size_t O, size_t... I>
std::unique_ptr<bs::ISpl> build(seq<0, I...>, const bs::Desc& d, int route) {
    using S = intp::BSpline<double, D, O, double>;
    std::array<size_t, D> n{};
    std::array<bool, D> per{};
    bool any = false;
    for (size_t i = 0; i < D; ++i) {
        n[i] = d.n[i];
        per[i] = d.periodic[i] != 0;
        any |= per[i];
    }
    typename S::ControlPointContainer c{intp::MeshDimension<D>(n)};
    for (size_t i = 0; i < d.c.size(); ++i)
        c(c.dimension().dimwise_indices(i)) = d.c[i];
    if (route == 1 && !any)
        return std::unique_ptr<bs::ISpl>(new Spl<D, O>(
            S(c, std::make_pair(d.knots[I].begin(), d.knots[I].end())...)));
    if (route == 2) {
        S s(per);
        for (size_t i = 0; i < D; ++i) {
            if (i % 2) {
                typename S::KnotContainer k(d.knots[i].begin(),
                                            d.knots[i].end());
                s.load_knots(i, k);
            } else {
                s.load_knots(i, typename S::KnotContainer(d.knots[i].begin(),
                                                          d.knots[i].end()));
            }
        }
        s.load_ctrlPts(c);
        return std::unique_ptr<bs::ISpl>(new Spl<D, O>(std::move(s)));
    }
    if (route == 4 || route == 5) {
        // everything is loaded over another spline, whose knots have one end
        // in common with the given ones
        std::array<size_t, D> m = n;
        m[0] += d.c.size() % 3;
        S s(per);
        s.load_ctrlPts(
            typename S::ControlPointContainer{intp::MeshDimension<D>(m)});
        for (int pass = 0; pass < 2; ++pass)
            for (size_t i = 0; i < D; ++i) {
                typename S::KnotContainer k(d.knots[i].begin(),
                                            d.knots[i].end());
                double fix = route == 4 ? k.front() : k.back();
                if (pass == 0)
                    for (auto& t : k) t = fix + (t - fix) * 1.5;
                s.load_knots(i, std::move(k));
            }
        s.load_ctrlPts(c);
        return std::unique_ptr<bs::ISpl>(new Spl<D, O>(std::move(s)));
    }
    if (route == 3)
        return std::unique_ptr<bs::ISpl>(new Spl<D, O>(
            S(per, std::move(c),
              std::make_pair(d.knots[I].data(),
                             d.knots[I].data() + d.knots[I].size())...)));
    return std::unique_ptr<bs::ISpl>(new Spl<D, O>(
        S(per, c, std::make_pair(d.knots[I].begin(), d.knots[I].end())...)));
}

template <size_t D, size_t O>
std::unique_ptr<bs::ISpl> make(const bs::Desc& d, int route) {
    return build<D, O>(seq<D>{}, d, route);
}

template <size_t... Os>
struct Reg {
    static int all() {
        int dummy[] = {one<Os>()...};
        return dummy[0];
    }
    template <size_t O>
    static int one() {
        bs::Backend b;
        b.cfg = CFG_ID;
        b.dim = VDIM;
        b.order = O;
#ifdef INTP_CELL_LAYOUT
        b.cell = true;
#else
        b.cell = false;
#endif
        b.make = &make<VDIM, O>;
        bs::registry().push_back(b);
        return 0;
    }
};
const int registered = Reg<VORDERS>::all();
}  // namespace

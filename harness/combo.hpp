// Instantiates the public interface; included by two translation units.
#include <Interpolation.hpp>

#include <cmath>
#include <complex>
#include <cstdio>
#include <iostream>
#include <vector>

template <std::size_t O>
int combo_check() {
    using namespace intp;
#ifdef INTP_PERIODIC_NO_DUMMY_POINT
    const std::size_t n = 9;
#else
    const std::size_t n = 10;
#endif
    int bad = 0;
    auto close = [](double a, double b) { return std::fabs(a - b) < 1e-9; };
    const double P = 6.283185307179586476925286766559;
    // aperiodic x periodic, nonuniform x uniform
    std::vector<double> xs = {0, 1, 2.5, 3, 4.5, 5, 7, 8};
    Mesh<double, 2> m(xs.size(), n);
    for (std::size_t i = 0; i < xs.size(); ++i)
        for (std::size_t j = 0; j < n; ++j)
            m(i, j) = (xs[i] + 1) * std::sin(P * double(j % 9) / 9 + .3);
    InterpolationFunction<double, 2, O> f({false, true}, m,
                                          std::make_pair(xs.begin(), xs.end()),
                                          std::make_pair(0., P));
    InterpolationFunctionTemplate<double, 2, O> t(
        {false, true}, m.dimension(), std::make_pair(xs.begin(), xs.end()),
        std::make_pair(0., P));
    const auto g = t.interpolate(m);
    InterpolationFunction<double, 2, O> h;
    t.interpolate(h, m);
    for (std::size_t i = 0; i < xs.size(); ++i)
        for (std::size_t j = 0; j < 9; ++j) {
            double y = P * double(j) / 9;
            double want = (xs[i] + 1) * std::sin(y + .3);
            if (!close(f(xs[i], y), want)) ++bad;
            if (!close(g.at(xs[i], y + P), want)) ++bad;
            if (!close(h(std::array<double, 2>{{xs[i], y - P}}), want)) ++bad;
            if (O > 0 && i > 0 && i + 1 < xs.size()) {
                // linear in x
                double d = f.derivative(std::make_pair(xs[i], 1), std::make_pair(y, 0));
                if (O > 1 && !(std::fabs(d - std::sin(y + .3)) < 1e-8)) ++bad;
            }
#ifdef INTP_CELL_LAYOUT
            if (!close(t.eval_proxy(xs[i], y)(g), want)) ++bad;
#endif
        }
    bool thrown = false;
    try {
        f.at(9., 0.);
    } catch (const std::domain_error&) {
        thrown = true;
    }
    if (!thrown) ++bad;
    // one dimensional conveniences
    std::vector<double> v = {1, 3, 2, 5, 4, 7, 6, 9};
    InterpolationFunction1D<O> a(std::make_pair(v.begin(), v.end()));
    InterpolationFunction1D<O> b(std::make_pair(xs.begin(), xs.end()),
                                 std::make_pair(v.begin(), v.end()));
    InterpolationFunctionTemplate1D<O> c(v.size());
    auto e = c.interpolate(std::make_pair(v.begin(), v.end()));
    for (std::size_t i = 0; i < v.size(); ++i)
        if (!close(a(double(i)), v[i]) || !close(b(xs[i]), v[i]) || !close(e(double(i)), v[i])) ++bad;
    InterpolationFunction1D<O, std::complex<double>> z(std::make_pair(v.begin(), v.end()));
    if (!close(z(2.).real(), 2) || !close(z(2.).imag(), 0)) ++bad;
    auto cp = f;
    auto mv = std::move(cp);
    cp = mv;
    if (!(cp(1.5, 2.) == f(1.5, 2.))) ++bad;
    return bad;
}

// Type-erased view of hand-built B-splines.
#pragma once
#include <cstddef>
#include <memory>
#include <string>
#include <utility>
#include <vector>

namespace bs {
struct Desc {
    std::vector<char> periodic;
    std::vector<std::vector<double>> knots;
    std::vector<std::size_t> n;    // control points per axis
    std::vector<double> c;         // row major
};
struct ISpl {
    virtual ~ISpl() {}
    virtual double val(const double* x) const = 0;
    virtual double val(const double* x, const std::size_t* hint) const = 0;
    virtual double der(const double* x, const std::size_t* k) const = 0;
    virtual double der(const double* x, const std::size_t* hint,
                       const std::size_t* k) const = 0;
    virtual bool has_pre() const = 0;
    virtual double pre(const double* x, const std::size_t* hint) const = 0;
    // compares range, knots, flags (and control points where stored plainly)
    virtual std::string describe_mismatch(const Desc& d) const = 0;
    virtual std::unique_ptr<ISpl> clone() const = 0;
    virtual std::unique_ptr<ISpl> move_out() = 0;
};
struct Backend {
    int cfg;
    std::size_t dim, order;
    bool cell;
    std::unique_ptr<ISpl> (*make)(const Desc&, int route);
};
std::vector<Backend>& registry();
constexpr int N_ROUTES = 6;
}  // namespace bs

// Type-erased view of the library: the property files never include the
// library's headers, they see it through backends, one per (configuration,
// dimension, order), compiled from the working tree by adaptor.cpp.
#pragma once
#include <cstddef>
#include <functional>
#include <memory>
#include <string>
#include <utility>
#include <vector>

namespace vf {

// One axis of a grid.  n distinct data points.  A periodic axis has n+1
// abscissae, the last being the first one period later.
struct Axis {
    bool periodic = false;
    bool uniform = true;
    std::size_t n = 2;
    double a = 0, b = 1;        // uniform: end points (b is the period's end)
    std::vector<double> x;      // all abscissae (n, or n+1 when periodic),
                                // filled for uniform axes as well
    std::vector<long double> xl;  // if set, the abscissae (or both end
                                  // points) with more digits
};

struct Grid {
    std::vector<Axis> ax;
    std::size_t dim() const { return ax.size(); }
    std::size_t size() const {
        std::size_t s = 1;
        for (auto& a : ax) s *= a.n;
        return s;
    }
};

// data over the distinct points, row major
struct Data {
    std::vector<double> f;
    double junk = 0;  // value of dummy points where the build requires them
};

struct IFn;
using FnPtr = std::unique_ptr<IFn>;

struct IFn {
    virtual ~IFn() {}
    // syntax: 0 array, 1 variadic, 2 variadic in other arithmetic types
    virtual double call(const double* c, int syntax) const = 0;
    virtual double at(const double* c, int syntax) const = 0;
    // syntax: 0 arrays, 1 array + orders, 2 pairs
    virtual double der(const double* c, const std::size_t* k,
                       int syntax) const = 0;
    virtual double der_at(const double* c, const std::size_t* k,
                          int syntax) const = 0;
    // through spline(): hints default to the first segment
    virtual double spl(const double* c) const = 0;
    virtual double spl_der(const double* c, const std::size_t* k) const = 0;
    virtual std::pair<double, double> range(std::size_t d) const = 0;
    virtual std::pair<double, double> spl_range(std::size_t d) const = 0;
    virtual bool periodic(std::size_t d) const = 0;
    virtual bool uniform(std::size_t d) const = 0;
    virtual std::size_t order() const = 0;
    virtual const void* storage() const = 0;
    // value semantics
    virtual FnPtr clone() const = 0;
    virtual FnPtr move_out() = 0;  // leaves *this moved from
    virtual void assign(const IFn& o) = 0;
    virtual void assign_move(IFn& o) = 0;
    virtual void self_assign() = 0;
    virtual void swap(IFn& o) = 0;
};

using Proxy = std::function<double(const IFn&)>;

struct ITpl;
using TplPtr = std::unique_ptr<ITpl>;

struct ITpl {
    virtual ~ITpl() {}
    // how: 0 mesh lvalue, 1 mesh rvalue, 2 const mesh, 3 iterators (1D)
    virtual FnPtr interpolate(const Data& f, int how) const = 0;
    virtual FnPtr interpolate_rvalue(const Data& f, int how) = 0;
    virtual void interpolate_into(IFn& fn, const Data& f, int how) const = 0;
    virtual bool has_proxy() const = 0;
    virtual Proxy proxy(const double* c, int syntax) const = 0;
    virtual TplPtr clone() const = 0;
    virtual TplPtr move_out() = 0;
    virtual void assign(const ITpl& o) = 0;
    virtual void assign_move(ITpl& o) = 0;
    virtual void swap(ITpl& o) = 0;
};

struct Backend {
    int cfg;
    std::size_t dim, order;
    bool multithread, cell, no_dummy, assertion;
    long std_;
    // route: which of the equivalent constructors; see adaptor.cpp
    FnPtr (*make)(const Grid&, const Data&, int route);
    TplPtr (*make_tpl)(const Grid&, int route);
    FnPtr (*make_empty)();
};

std::vector<Backend>& registry();

// all backends of given configuration (any if cfg < 0), dimension, order
const Backend* find_backend(int cfg, std::size_t dim, std::size_t order);

constexpr int N_ROUTES = 9;

}  // namespace vf

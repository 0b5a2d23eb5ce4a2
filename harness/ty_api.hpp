// Type-erased view of interpolations over other value and coordinate types.
#pragma once
#include <cstddef>
#include <memory>
#include <vector>

#include "api.hpp"

namespace ty {
using R = long double;
struct IFn {
    virtual ~IFn() {}
    virtual void val(const R* x, R* out, int syntax) const = 0;
    virtual void der(const R* x, const std::size_t* k, R* out,
                     int syntax) const = 0;
    virtual void proxy(const R* x, R* out) const = 0;  // cell layout only
    virtual R range_lo(std::size_t d) const = 0;
    virtual R range_hi(std::size_t d) const = 0;
};
struct Backend {
    int cfg;
    std::size_t dim, order;
    int typ;
    const char* name;
    std::size_t ncomp;
    R eps_val, eps_coord;
    bool has_der, has_proxy;
    // f: ncomp consecutive components per point
    std::unique_ptr<IFn> (*make)(const vf::Grid&, const std::vector<R>& f,
                                 int route);
};
std::vector<Backend>& registry();
constexpr int N_ROUTES = 4;
}  // namespace ty

#include "api.hpp"
#include "pbt.hpp"

namespace vf {
std::vector<Backend>& registry() {
    static std::vector<Backend> r;
    return r;
}
const Backend* find_backend(int cfg, std::size_t dim, std::size_t order) {
    for (auto& b : registry())
        if ((cfg < 0 || b.cfg == cfg) && b.dim == dim && b.order == order)
            return &b;
    return nullptr;
}
}  // namespace vf

int main(int argc, char** argv) {
    // link order must not matter: sort backends
    auto& r = vf::registry();
    std::sort(r.begin(), r.end(),
              [](const vf::Backend& a, const vf::Backend& b) {
                  if (a.cfg != b.cfg) return a.cfg < b.cfg;
                  if (a.dim != b.dim) return a.dim < b.dim;
                  return a.order < b.order;
              });
    return pbt::run_main(argc, argv);
}

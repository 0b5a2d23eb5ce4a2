// Out of range access to meshes and band matrices in an assertion build.
#include <BandMatrix.hpp>

#include "pbt.hpp"
using pbt::Ctx;
using pbt::Gen;

#ifndef INTP_ENABLE_ASSERTION
#error "assertions must be on"
#endif

namespace {
template <typename F>
void expect(Ctx& ctx, bool valid, F f, const char* what) {
    try {
        f();
    } catch (const std::runtime_error& e) {
        if (valid) ctx.fail(std::string(what) + ": valid access was rejected: " + e.what());
        return;
    }
    if (!valid) ctx.fail(std::string(what) + ": invalid access was accepted");
}

template <size_t... I>
struct seq {};
template <size_t N, size_t... I>
struct mk : mk<N - 1, N - 1, I...> {};
template <size_t... I>
struct mk<0, I...> {
    using type = seq<I...>;
};

template <typename M, typename A, size_t... I>
void access(M& m, const A& a, seq<I...>, double v) {
    m(a[I]...) = v;
}
template <typename M, typename A, size_t... I>
double access(const M& m, const A& a, seq<I...>) {
    return m(a[I]...);
}

size_t beyond(Gen& g, size_t n) {
    switch (g.below(4)) {
        case 0: return n;
        case 1: return n + g.below(5);
        case 2: return n + g.below(1000000);
        default: return size_t(0) - 1 - g.below(3);  // negative index
    }
}

template <size_t D>
void mesh(Ctx& ctx) {
    Gen& g = ctx.g;
    std::array<size_t, D> s, a;
    std::string d = "mesh";
    for (size_t i = 0; i < D; ++i) {
        s[i] = 1 + g.below(D == 1 ? 30 : 6);
        a[i] = g.below(s[i]);
    }
    bool valid = g.coin(1, 4);
    size_t ax = g.below(D);
    if (!valid) a[ax] = beyond(g, s[ax]);
    for (size_t i = 0; i < D; ++i)
        d += (i ? " x " : " ") + std::to_string(s[i]) + "[" + std::to_string(a[i]) + "]";
    ctx.describe(d);
    intp::Mesh<double, D> m{intp::MeshDimension<D>(s)};
    const auto& c = m;
    using S = typename mk<D>::type;
    expect(ctx, valid, [&] { access(m, a, S{}, 1.5); }, "element for writing");
    expect(ctx, valid, [&] { access(c, a, S{}); }, "element for reading");
    for (size_t e = 0; e < D; ++e) {
        // the index along the line itself does not matter
        bool ok = valid || e == ax;
        expect(ctx, ok, [&] { m.begin(e, a); }, "begin of a line");
        expect(ctx, ok, [&] { c.begin(e, a); }, "begin of a const line");
    }
    ctx.label("mesh D=" + std::to_string(D) + (valid ? " valid" : " fault"));
}

void band(Ctx& ctx) {
    Gen& g = ctx.g;
    size_t n = 1 + g.below(14), p = g.below(5), q = g.below(5);
    size_t i = g.below(n), j = g.below(n);
    bool ext = g.coin();
    if (ext) n = std::max(n, std::max(p, q) + 1), i = g.below(n), j = g.below(n);
    bool in = j + p >= i && i + q >= j;
    if (g.coin(1, 8)) j = n + g.below(3), in = false;  // column outside the matrix
    ctx.describe(std::string(ext ? "extended " : "") + "band matrix n=" + std::to_string(n) + " p=" +
                 std::to_string(p) + " q=" + std::to_string(q) + " (" + std::to_string(i) + "," +
                 std::to_string(j) + ")");
    if (!ext) {
        intp::BandMatrix<double> m(n, p, q);
        const auto& c = m;
        expect(ctx, in, [&] { m(i, j) = 1; }, "element for writing");
        expect(ctx, in, [&] { c(i, j); }, "element for reading");
        ctx.label(in ? "band matrix valid" : "band matrix fault");
        return;
    }
    intp::ExtendedBandMatrix<double> m(n, p, q);
    const auto& c = m;
    bool right = j < n && j > i + q && j + p >= n;
    bool bottom = j < n && i > j + p && i + q >= n;
    bool side = right || bottom;
    expect(ctx, in, [&] { m.main_bands_val(i, j) = 1; }, "main band element for writing");
    expect(ctx, in, [&] { c.main_bands_val(i, j); }, "main band element for reading");
    expect(ctx, side, [&] { m.side_bands_val(i, j) = 1; }, "side band element for writing");
    expect(ctx, side, [&] { c.side_bands_val(i, j); }, "side band element for reading");
    expect(ctx, side || in, [&] { m(i, j) = 1; }, "element for writing");
    expect(ctx, side || in, [&] { c(i, j); }, "element for reading");
    ctx.label(in ? "extended: main band" : side ? "extended: side band" : "extended: fault");
}

void body(Ctx& ctx) {
    switch (ctx.g.pick({10, 10, 10, 10, 30})) {
        case 0: mesh<1>(ctx); break;
        case 1: mesh<2>(ctx); break;
        case 2: mesh<3>(ctx); break;
        case 3: mesh<4>(ctx); break;
        default: band(ctx);
    }
    ctx.nontrivial();
}
}  // namespace

const pbt::Property& pbt::property() {
    static pbt::Property p = {
        "C18",
        "meshes of 1-4 dimensions and (extended) band matrices accessed at a "
        "random valid or invalid place (one index just beyond, far beyond or "
        "negative; outside the bands; column outside the matrix); invalid must "
        "throw std::runtime_error, valid must not; every case is non-trivial",
        body};
    return p;
}

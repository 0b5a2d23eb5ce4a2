// Mesh against a model: shape + flat vector, over generated histories.
#include <Mesh.hpp>
#include <aligned-allocator.hpp>

#include <algorithm>
#include <list>
#include <numeric>
#include <string>

#include "pbt.hpp"
#include "single_pass.hpp"

using pbt::Ctx;
using std::size_t;

namespace {

template <typename T>
struct Val;
template <>
struct Val<double> {
    static double make(uint64_t k) { return static_cast<double>(k) + 0.25; }
};
template <>
struct Val<int> {
    static int make(uint64_t k) { return static_cast<int>(k); }
};
template <>
struct Val<std::string> {
    static std::string make(uint64_t k) {
        return "element number " + std::to_string(k);
    }
};
struct Pod3 {
    unsigned char b[3];
    bool operator==(const Pod3& o) const {
        return b[0] == o.b[0] && b[1] == o.b[1] && b[2] == o.b[2];
    }
    bool operator!=(const Pod3& o) const { return !(*this == o); }
    bool operator<(const Pod3& o) const {
        return std::lexicographical_compare(b, b + 3, o.b, o.b + 3);
    }
};
template <>
struct Val<Pod3> {
    static Pod3 make(uint64_t k) {
        return Pod3{{static_cast<unsigned char>(k >> 16),
                     static_cast<unsigned char>(k >> 8),
                     static_cast<unsigned char>(k)}};
    }
};

template <typename M, typename A, size_t... I>
auto var_call(M& m, const A& idx, std::index_sequence<I...>)
    -> decltype(m(idx[I]...)) {
    return m(idx[I]...);
}
template <typename M, typename A, size_t... I>
auto var_call_int(M& m, const A& idx, std::index_sequence<I...>)
    -> decltype(m(static_cast<int>(idx[I])...)) {
    return m(static_cast<int>(idx[I])...);
}

template <typename T, size_t D>
struct Model {
    std::array<size_t, D> s{};
    std::vector<T> v;
    size_t size() const {
        size_t r = 1;
        for (auto k : s) r *= k;
        return r;
    }
    size_t flat(const std::array<size_t, D>& i) const {
        size_t r = 0;
        for (size_t d = 0; d < D; ++d) r = r * s[d] + i[d];
        return r;
    }
};

template <size_t D>
std::string str(const std::array<size_t, D>& a) {
    std::string r = "(";
    for (size_t d = 0; d < D; ++d) r += (d ? "," : "") + std::to_string(a[d]);
    return r + ")";
}

template <typename T, size_t D>
struct Run {
    using Def = intp::util::default_init_allocator<T>;
    using Al = intp::AlignedAllocator<T, intp::Alignment::AVX>;
    using M0 = intp::Mesh<T, D>;
    using M1 = intp::Mesh<T, D, Al>;
    using M2 = intp::Mesh<
        T,
        D,
        intp::util::default_init_allocator<
            T,
            intp::AlignedAllocator<T, intp::Alignment::AVX512>>>;
    using Idx = std::array<size_t, D>;
    using Seq = std::make_index_sequence<D>;

    Ctx& ctx;
    std::string log;
    uint64_t counter = 1;
    bool huge = false;

    explicit Run(Ctx& c) : ctx(c) {}

    [[noreturn]] void bad(const std::string& what) {
        ctx.describe(log);
        ctx.fail(what);
    }
    void note(const std::string& s) {
        log += s + "; ";
        ctx.describe(log);
    }

    Idx gen_shape(bool zero_ok) {
        Idx s{};
        static const size_t cap_small[] = {0, 60, 14, 7, 5, 4};
        static const size_t cap_huge[] = {0, 70000, 270, 42, 17, 10};
        const size_t* cap = huge ? cap_huge : cap_small;
        for (auto& k : s) {
            k = 1 + ctx.g.below(ctx.g.coin(1, 3) ? 3 : cap[D]);
            if (zero_ok && ctx.g.coin(1, 60)) k = 0;
        }
        return s;
    }
    Idx gen_idx(const Model<T, D>& m) {
        Idx i{};
        for (size_t d = 0; d < D; ++d) i[d] = ctx.g.below(m.s[d]);
        return i;
    }

    template <typename M>
    void check_all(const M& m, const Model<T, D>& mod, const char* when) {
        auto w = std::string(when) + ": ";
        size_t n = mod.size();
        if (m.size() != n)
            bad(w + "size " + std::to_string(m.size()) + " instead of " +
                std::to_string(n));
        for (size_t d = 0; d < D; ++d) {
            if (m.dim_size(d) != mod.s[d] ||
                m.dimension().dim_size(d) != mod.s[d])
                bad(w + "dim_size");
        }
        Idx da = m.dimension();
        if (da != mod.s || m.dimension().size() != n) bad(w + "dimension()");
        // dim_acc_size(k): product of the k last extents
        size_t acc = 1;
        for (size_t k = 0; k <= D; ++k) {
            if (m.dimension().dim_acc_size(k) != acc) bad(w + "dim_acc_size");
            if (k < D) acc *= mod.s[D - 1 - k];
        }
        if (static_cast<size_t>(m.end() - m.begin()) != n)
            bad(w + "end() - begin()");
        if (mod.v.size() != n) bad("harness: model size");
        size_t k = 0;
        for (auto it = m.begin(); it != m.end(); ++it, ++k) {
            if (*it != mod.v[k])
                bad(w + "element " + std::to_string(k) +
                    " of the whole-mesh iteration differs");
            if (n && m.data()[k] != mod.v[k]) bad(w + "data()");
        }
        // positions
        for (size_t f = 0; f < n; ++f) {
            Idx i{};
            size_t r = f;
            for (size_t d = D; d-- > 0;) {
                i[d] = r % mod.s[d];
                r /= mod.s[d];
            }
            if (m.dimension().dimwise_indices(f) != i)
                bad(w + "dimwise_indices(" + std::to_string(f) + ")");
            if (m.dimension().indexing(i) != f ||
                m.dimension().indexing_safe(i) != f)
                bad(w + "indexing" + str<D>(i));
            if (m(i) != mod.v[f]) bad(w + "element " + str<D>(i));
            if (var_call(m, i, Seq{}) != mod.v[f] ||
                var_call_int(m, i, Seq{}) != mod.v[f])
                bad(w + "element by separate indices " + str<D>(i));
            if (&m(i) != m.data() + f) bad(w + "address " + str<D>(i));
            if (m.iter_indices(m.begin() + static_cast<std::ptrdiff_t>(f)) != i)
                bad(w + "iter_indices " + str<D>(i));
        }
    }

    // one axis, full random access behaviour
    template <typename M, typename It>
    void walk(M& m, const Model<T, D>& mod, It b, It e, size_t d, Idx idx) {
        auto n = static_cast<std::ptrdiff_t>(mod.s[d]);
        if (e - b != n || b - e != -n) bad("axis iterator difference");
        if (std::distance(b, e) != n) bad("std::distance");
        std::ptrdiff_t pos = 0;
        It it = b;
        auto expect = [&](std::ptrdiff_t p) {
            Idx i = idx;
            i[d] = static_cast<size_t>(p);
            return mod.v[mod.flat(i)];
        };
        // plain traversal
        std::ptrdiff_t k = 0;
        for (It j = b; j != e; ++j, ++k) {
            if (k >= n) bad("axis iteration visits too many elements");
            if (*j != expect(k))
                bad("axis iteration along " + std::to_string(d) + " from " +
                    str<D>(idx));
            Idx want = idx;
            want[d] = static_cast<size_t>(k);
            if (m.iter_indices(j) != want) bad("iter_indices(axis iterator)");
        }
        if (k != n) bad("axis iteration length");
        k = n;
        for (auto j = std::reverse_iterator<It>(e);
             j != std::reverse_iterator<It>(b); ++j) {
            --k;
            if (*j != expect(k)) bad("reverse axis iteration");
        }
        size_t steps = 3 + ctx.g.below(8);
        for (size_t s = 0; s < steps; ++s) {
            std::ptrdiff_t to = ctx.g.range(0, static_cast<long>(n));
            std::ptrdiff_t dlt = to - pos;
            switch (ctx.g.below(8)) {
                case 0: it += dlt; break;
                case 1: it -= -dlt; break;
                case 2: it = it + dlt; break;
                case 3: it = dlt + it; break;
                case 4: it = it - (-dlt); break;
                case 5: {
                    if (pos < n) {
                        It old = it++;
                        if (*old != expect(pos)) bad("it++");
                        to = pos + 1;
                    } else
                        to = pos;
                    break;
                }
                case 6: {
                    if (pos > 0) {
                        It old = it--;
                        if (!(old == b + pos)) bad("it--");
                        to = pos - 1;
                    } else
                        to = pos;
                    break;
                }
                default: {
                    if (pos > 0) {
                        It r = --it;
                        if (!(r == it)) bad("--it");
                        to = pos - 1;
                    } else
                        to = pos;
                }
            }
            pos = to;
            if (it - b != pos || e - it != n - pos) bad("iterator arithmetic");
            if (pos < n && *it != expect(pos)) bad("dereference after jump");
            std::ptrdiff_t q = ctx.g.range(0, static_cast<long>(n));
            It o = b + q;
            if ((it == o) != (pos == q) || (it != o) != (pos != q) ||
                (it < o) != (pos < q) || (it > o) != (pos > q) ||
                (it <= o) != (pos <= q) || (it >= o) != (pos >= q))
                bad("iterator comparison");
            if (q < n && it[q - pos] != expect(q)) bad("iterator subscript");
            if (q < n && &*(it + (q - pos)) != &it[q - pos])
                bad("iterator subscript address");
        }
    }

    template <typename M>
    void step(M& m, Model<T, D>& mod) {
        bool empty = mod.size() == 0;
        switch (ctx.g.pick({30, 20, 15, 10, 10, 10, 5})) {
            case 0: {  // write elements
                if (empty) return;
                size_t k = 1 + ctx.g.below(4);
                for (; k-- > 0;) {
                    Idx i = gen_idx(mod);
                    T v = Val<T>::make(counter++);
                    note("write " + str<D>(i));
                    switch (ctx.g.below(3)) {
                        case 0: m(i) = v; break;
                        case 1: var_call(m, i, Seq{}) = v; break;
                        default: var_call_int(m, i, Seq{}) = v;
                    }
                    mod.v[mod.flat(i)] = v;
                }
                check_all(m, mod, "after write");
                break;
            }
            case 1: {  // const axis walk
                if (empty) return;
                size_t d = ctx.g.below(D);
                Idx i = gen_idx(mod);
                note("walk const axis " + std::to_string(d) + " at " +
                     str<D>(i));
                const M& cm = m;
                walk(cm, mod, cm.begin(d, i), cm.end(d, i), d, i);
                break;
            }
            case 2: {  // mutable axis walk + conversion
                if (empty) return;
                size_t d = ctx.g.below(D);
                Idx i = gen_idx(mod);
                note("walk axis " + std::to_string(d) + " at " + str<D>(i));
                walk(m, mod, m.begin(d, i), m.end(d, i), d, i);
                const M& cm = m;
                auto cb = cm.begin(d, i);
                auto mb = m.begin(d, i);
                cb = mb;
                if (!(cb == cm.begin(d, i)) || *cb != *mb)
                    bad("iterator to const_iterator");
                break;
            }
            case 3: {  // write through an axis
                if (empty) return;
                size_t d = ctx.g.below(D);
                Idx i = gen_idx(mod);
                note("algorithm on axis " + std::to_string(d) + " at " +
                     str<D>(i));
                auto b = m.begin(d, i), e = m.end(d, i);
                std::vector<T> line;
                for (size_t k = 0; k < mod.s[d]; ++k) {
                    Idx j = i;
                    j[d] = k;
                    line.push_back(mod.v[mod.flat(j)]);
                }
                switch (ctx.g.below(5)) {
                    case 0:
                        std::sort(b, e);
                        std::sort(line.begin(), line.end());
                        break;
                    case 1:
                        std::reverse(b, e);
                        std::reverse(line.begin(), line.end());
                        break;
                    case 2: {
                        auto r = static_cast<std::ptrdiff_t>(
                            ctx.g.below(line.size()));
                        std::rotate(b, b + r, e);
                        std::rotate(line.begin(), line.begin() + r, line.end());
                        break;
                    }
                    case 3:
                        for (auto& v : line) v = Val<T>::make(counter++);
                        std::copy(line.begin(), line.end(), b);
                        break;
                    default: {
                        auto r = static_cast<std::ptrdiff_t>(
                            ctx.g.below(line.size()));
                        T v = Val<T>::make(counter++);
                        b[r] = v;
                        line[static_cast<size_t>(r)] = v;
                    }
                }
                for (size_t k = 0; k < mod.s[d]; ++k) {
                    Idx j = i;
                    j[d] = k;
                    mod.v[mod.flat(j)] = line[k];
                }
                check_all(m, mod, "after algorithm on an axis");
                break;
            }
            case 4: {  // resize
                Idx s = gen_shape(true);
                note("resize " + str<D>(s));
                size_t old = mod.v.size();
                m.resize(s);
                mod.s = s;
                if (m.size() != mod.size() ||
                    static_cast<size_t>(m.end() - m.begin()) != mod.size())
                    bad("size after resize");
                mod.v.resize(mod.size());
                // what was not there before has no promised value
                for (size_t k = old; k < mod.v.size(); ++k) {
                    mod.v[k] = Val<T>::make(counter++);
                    m(m.dimension().dimwise_indices(k)) = mod.v[k];
                }
                check_all(m, mod, "after resize");
                break;
            }
            case 5: {  // copies and moves
                note("copy/move");
                M c(m);
                check_all(c, mod, "copy");
                if (!empty) {
                    Idx i = gen_idx(mod);
                    c(i) = Val<T>::make(counter++);
                    check_all(m, mod, "original after writing to its copy");
                }
                M mv(std::move(c));
                Model<T, D> other;
                other.s = gen_shape(false);
                other.v.assign(other.size(), T{});
                M z{intp::MeshDimension<D>(other.s)};
                check_all(z, other, "fresh mesh");
                switch (ctx.g.below(3)) {
                    case 0: z = m; break;
                    case 1: {
                        M t(m);
                        z = std::move(t);
                        break;
                    }
                    default: {
                        M t(m);
                        std::swap(z, t);
                        check_all(t, other, "swapped out");
                    }
                }
                check_all(z, mod, "assigned");
                check_all(m, mod, "source of copy");
                m = std::move(z);
                check_all(m, mod, "moved back");
                break;
            }
            default: {  // other allocators and back
                note("convert allocator");
                M0 a(m);
                M1 b(a);
                M2 c(b);
                M1 b2(c);
                M0 a2(b2);
                check_all(a, mod, "converted (std)");
                check_all(b, mod, "converted (aligned)");
                check_all(c, mod, "converted (default init)");
                check_all(b2, mod, "converted (default init to aligned)");
                check_all(a2, mod, "converted back");
                M r(a2);
                m = r;
                check_all(m, mod, "after conversions");
            }
        }
    }

    template <size_t... I>
    M0 by_extents(const Idx& s, std::index_sequence<I...>) {
        return M0(s[I]...);
    }
    template <size_t... I>
    M0 by_dim(const Idx& s, std::index_sequence<I...>) {
        return M0(intp::MeshDimension<D>(static_cast<int>(s[I])...));
    }

    template <typename M>
    void history(M m, Model<T, D> mod) {
        check_all(m, mod, "initial");
        size_t n = 2 + ctx.g.below(8);
        for (size_t i = 0; i < n; ++i) {
            step(m, mod);
            ctx.beat();
        }
        check_all(m, mod, "final");
    }

    template <typename M>
    void start() {
        Model<T, D> mod;
        huge = ctx.g.coin(1, 1500);
        if (huge) ctx.label("huge");
        mod.s = gen_shape(true);
        size_t how = ctx.g.below(D == 1 ? 6 : 4);
        if (how == 1) mod.s.fill(1 + ctx.g.below(D > 3 ? 3 : 6));
        mod.v.assign(mod.size(), T{});
        note("shape " + str<D>(mod.s) + " ctor " + std::to_string(how));
        if (D > 1 && mod.size() > 1) ctx.nontrivial();
        if (D == 1 && mod.s[0] > 2) ctx.nontrivial();
        ctx.label("D=" + std::to_string(D));
        switch (how) {
            case 1: return history(M(mod.s[0]), mod);
            case 2: return history(M(by_extents(mod.s, Seq{})), mod);
            case 3: return history(M(by_dim(mod.s, Seq{})), mod);
            case 4:
            case 5: ranges<M>(mod, how); return;
            default:
                return history(M(intp::MeshDimension<D>(mod.s)), mod);
        }
    }

    template <typename M>
    void ranges(Model<T, D>& mod, size_t how) {
        if constexpr (D == 1) {
            for (auto& v : mod.v) v = Val<T>::make(counter++);
            if (how == 4)
                history(M(std::make_pair(mod.v.cbegin(), mod.v.cend())), mod);
            else {
                if (ctx.g.coin()) {
                    sp::Stream<std::vector<T>> st(mod.v);
                    note("read only once");
                    return history(M(st.range()), mod);
                }
                std::list<T> l(mod.v.begin(), mod.v.end());
                history(M(std::make_pair(l.begin(), l.end())), mod);
            }
        }
    }

    template <size_t W>
    using Pick = typename std::conditional<
        W == 0,
        M0,
        typename std::conditional<W == 1, M1, M2>::type>::type;
};
}  // namespace

#ifdef PART
template <typename T, size_t W>
static void by_dim(Ctx& ctx) {
    switch (ctx.g.below(5)) {
        case 0: return Run<T, 1>(ctx).template start<typename Run<T, 1>::template Pick<W>>();
        case 1: return Run<T, 2>(ctx).template start<typename Run<T, 2>::template Pick<W>>();
        case 2: return Run<T, 3>(ctx).template start<typename Run<T, 3>::template Pick<W>>();
        case 3: return Run<T, 4>(ctx).template start<typename Run<T, 4>::template Pick<W>>();
        default: return Run<T, 5>(ctx).template start<typename Run<T, 5>::template Pick<W>>();
    }
}
#if PART == 1
void part1(Ctx& c) { by_dim<double, 0>(c); }
#elif PART == 2
void part2(Ctx& c) { by_dim<double, 1>(c); }
#elif PART == 3
void part3(Ctx& c) { by_dim<int, 2>(c); }
#elif PART == 4
void part4(Ctx& c) { by_dim<std::string, 1>(c); }
#else
void part5(Ctx& c) { by_dim<Pod3, 2>(c); }
#endif
#else
void part1(Ctx&);
void part2(Ctx&);
void part3(Ctx&);
void part4(Ctx&);
void part5(Ctx&);

static void body(Ctx& ctx) {
    switch (ctx.g.below(5)) {
        case 0: return part1(ctx);
        case 1: return part2(ctx);
        case 2: return part3(ctx);
        case 3: return part4(ctx);
        default: return part5(ctx);
    }
}

const pbt::Property& pbt::property() {
    static pbt::Property p = {
        "C14",
        "history of 2-9 operations (writes, axis walks with random iterator "
        "arithmetic, algorithms on an axis, resize, copy/move/swap, allocator "
        "conversion) on a mesh of random dimension 1-5, shape, element type, "
        "allocator and constructor, compared with a flat model after each; "
        "non-trivial: more than one element",
        body};
    return p;
}
#endif

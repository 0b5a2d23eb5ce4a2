// Allocators under standard containers, and the alignment of control points.
#ifndef INTP_STACK_ALLOCATOR
#define INTP_STACK_ALLOCATOR
#endif
#include <Interpolation.hpp>

#include <complex>
#include <deque>
#include <list>
#include <map>
#include <set>

#include "pbt.hpp"
using pbt::Ctx;
using pbt::Gen;

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define UNDER_ASAN
#endif
#endif
#ifdef UNDER_ASAN
#include <sanitizer/lsan_interface.h>
// with allocator_may_return_null ASan's operator new returns null
static constexpr bool huge_requests = false;
#else
static constexpr bool huge_requests = true;
#endif

void part1(Ctx&);
void part2(Ctx&);
void part3(Ctx&);
void part4(Ctx&);
void part5(Ctx&);
void part6(Ctx&);
bool fault_injection();
void fail_aligned_at(long k);  // -1: never
long aligned_calls();

namespace {
inline std::string S(size_t v) { return std::to_string(v); }

struct Tracked {
    static long& live() {
        static long n = 0;
        return n;
    }
    long v;
    const Tracked* self;
    Tracked() : v(-7), self(this) { ++live(); }
    explicit Tracked(long x) : v(x), self(this) { ++live(); }
    Tracked(const Tracked& o) : v(o.v), self(this) { o.ok(), ++live(); }
    Tracked& operator=(const Tracked& o) {
        ok();
        o.ok();
        v = o.v;
        return *this;
    }
    ~Tracked() {
        ok();
        self = nullptr;
        --live();
    }
    void ok() const {
        if (self != this) throw std::logic_error("object used outside its lifetime");
    }
    bool operator==(const Tracked& o) const { return v == o.v; }
    bool operator<(const Tracked& o) const { return v < o.v; }
};
struct Odd24 {
    double a;
    int b;
    char c[12];
    bool operator==(const Odd24& o) const { return a == o.a && b == o.b && c[0] == o.c[0] && c[11] == o.c[11]; }
    bool operator<(const Odd24& o) const { return a < o.a; }
};

template <typename T>
struct Mk {
    static T make(long v) { return static_cast<T>(v); }
    static const char* name() { return sizeof(T) == 1 ? "char" : sizeof(T) == 4 ? "float" : sizeof(T) == 8 ? "double" : "long double"; }
};
template <>
struct Mk<std::string> {
    static std::string make(long v) { return v % 3 ? std::to_string(v) : "a longer string that is on the heap " + std::to_string(v); }
    static const char* name() { return "string"; }
};
template <>
struct Mk<Tracked> {
    static Tracked make(long v) { return Tracked(v); }
    static const char* name() { return "class"; }
};
template <>
struct Mk<Odd24> {
    static Odd24 make(long v) {
        Odd24 o;
        o.a = double(v);
        o.b = int(v) * 3;
        for (auto& x : o.c) x = char(v);
        return o;
    }
    static const char* name() { return "struct24"; }
};
template <>
struct Mk<std::complex<double>> {
    static std::complex<double> make(long v) { return {double(v), -double(v)}; }
    static const char* name() { return "complex"; }
};

template <typename V, typename M>
void same(Ctx& ctx, const V& v, const M& m, const std::string& log) {
    if (v.size() != m.size()) ctx.fail("size " + S(v.size()) + " instead of " + S(m.size()) + " after " + log);
    auto j = m.begin();
    size_t k = 0;
    for (auto i = v.begin(); i != v.end(); ++i, ++j, ++k)
        if (!(*i == *j)) ctx.fail("element " + S(k) + " differs after " + log);
}

template <typename T, typename A>
void vector_history(Ctx& ctx, const char* aname, size_t align) {
    Gen& g = ctx.g;
    long live0 = Tracked::live();
    {
        using V = std::vector<T, A>;
        using M = std::vector<T>;
        std::vector<V> vs(1 + g.below(4));
        std::vector<M> ms(vs.size());
        size_t ops = 3 + g.below(30);
        std::string log = std::string("vector<") + Mk<T>::name() + "," + aname + ">:";
        long next = 1;
        size_t grown = 0;
        for (size_t o = 0; o < ops; ++o) {
            size_t i = g.below(vs.size()), j = g.below(vs.size());
            V& v = vs[i];
            M& m = ms[i];
            bool failing = fault_injection() && g.coin(1, 8);
            if (failing) fail_aligned_at(static_cast<long>(g.below(2)));
            size_t op = g.below(15);
            size_t n = g.coin(1, 8) ? g.below(400) : g.below(20);
            if (failing) op = g.coin() ? 0 : 13;  // operations with the strong guarantee
            size_t where = g.below(m.size() + 1);
            log += " " + S(op) + "(" + S(i) + "," + S(n) + ")" + (failing ? "!" : "");
            ctx.describe(log);
            try {
                switch (op) {
                    case 0: {
                        T x = Mk<T>::make(next++);
                        v.push_back(x);
                        m.push_back(x);
                        break;
                    }
                    case 1:
                        if (!m.empty()) v.pop_back(), m.pop_back();
                        break;
                    case 2: {
                        T x = Mk<T>::make(next++);
                        v.insert(v.begin() + long(where), x);
                        m.insert(m.begin() + long(where), x);
                        break;
                    }
                    case 3: {
                        T x = Mk<T>::make(next++);
                        v.insert(v.begin() + long(where), n, x);
                        m.insert(m.begin() + long(where), n, x);
                        break;
                    }
                    case 4:
                        if (where < m.size()) v.erase(v.begin() + long(where)), m.erase(m.begin() + long(where));
                        break;
                    case 5: {
                        T x = Mk<T>::make(next++);
                        v.resize(n, x);
                        m.resize(n, x);
                        break;
                    }
                    case 6: {
                        // new elements may be left uninitialised: set them
                        size_t old = m.size();
                        v.resize(n);
                        m.resize(n);
                        if (std::is_class<T>::value && !std::is_trivial<T>::value) break;
                        for (size_t k = old; k < n; ++k) v[k] = m[k] = Mk<T>::make(next++);
                        break;
                    }
                    case 7: {
                        T x = Mk<T>::make(next++);
                        v.assign(n, x);
                        m.assign(n, x);
                        break;
                    }
                    case 8:
                        vs[j].swap(v);
                        ms[j].swap(m);
                        break;
                    case 9:
                        vs[j] = v;
                        ms[j] = M(m);
                        break;
                    case 10:
                        if (i != j) {
                            vs[j] = std::move(v);
                            v.clear();
                            ms[j] = m;
                            m.clear();
                        }
                        break;
                    case 11: {
                        V c(v);
                        same(ctx, c, m, "copy");
                        V d(std::move(c));
                        same(ctx, d, m, "move");
                        if (!d.empty()) d[0] = Mk<T>::make(next++);
                        v.clear();
                        m.clear();
                        break;
                    }
                    case 12: v.shrink_to_fit(); break;
                    case 13: v.reserve(n + v.size()); break;
                    default:
                        v.clear();
                        m.clear();
                }
            } catch (const std::bad_alloc&) {
                if (!failing) ctx.fail("bad_alloc without reason after " + log);
                ctx.label("allocation failed on purpose");
            }
            fail_aligned_at(-1);
            grown = std::max(grown, v.capacity());
            for (size_t k = 0; k < vs.size(); ++k) {
                same(ctx, vs[k], ms[k], log);
                if (vs[k].capacity() && reinterpret_cast<uintptr_t>(vs[k].data()) % align)
                    ctx.fail("storage not aligned to " + S(align) + " after " + log);
                for (size_t l = 0; l < k; ++l) {
                    if (!vs[k].capacity() || !vs[l].capacity()) continue;
                    const T *a = vs[k].data(), *b = vs[l].data();
                    if (a < b + vs[l].capacity() && b < a + vs[k].capacity())
                        ctx.fail("storage of two vectors overlaps after " + log);
                }
            }
        }
        if (grown > 1) ctx.nontrivial();
        ctx.label(std::string("vector ") + aname);
    }
    if (Tracked::live() != live0) ctx.fail("constructions and destructions do not balance");
}

template <typename T, typename A>
void node_history(Ctx& ctx, const char* aname) {
    Gen& g = ctx.g;
    long live0 = Tracked::live();
    {
        using PA = typename std::allocator_traits<A>::template rebind_alloc<std::pair<const int, T>>;
        std::list<T, A> l;
        std::list<T> ml;
        std::deque<T, A> d;
        std::deque<T> md;
        std::map<int, T, std::less<int>, PA> p;
        std::map<int, T> mp;
        size_t ops = 3 + g.below(40);
        std::string log = std::string("nodes<") + Mk<T>::name() + "," + aname + ">:";
        for (size_t o = 0; o < ops; ++o) {
            size_t op = g.below(9);
            int k = static_cast<int>(g.below(12));
            T x = Mk<T>::make(long(o) + 1);
            log += " " + S(op);
            ctx.describe(log);
            switch (op) {
                case 0: l.push_back(x), ml.push_back(x); break;
                case 1: l.push_front(x), ml.push_front(x); break;
                case 2:
                    if (!ml.empty()) l.pop_front(), ml.pop_front();
                    break;
                case 3: d.push_back(x), md.push_back(x); break;
                case 4: d.push_front(x), md.push_front(x); break;
                case 5:
                    if (!md.empty()) d.pop_front(), md.pop_front();
                    break;
                case 6: p.erase(k), mp.erase(k), p.emplace(k, x), mp.emplace(k, x); break;
                case 7: p.erase(k), mp.erase(k); break;
                default: {
                    auto c = l;
                    l = c;
                    auto q = p;
                    p = std::move(q);
                    auto e = d;
                    d.swap(e);
                }
            }
            same(ctx, l, ml, log);
            same(ctx, d, md, log);
            if (p.size() != mp.size()) ctx.fail("map size after " + log);
            auto i = p.begin();
            for (auto& kv : mp) {
                if (i->first != kv.first || !(i->second == kv.second)) ctx.fail("map contents after " + log);
                ++i;
            }
        }
        ctx.nontrivial();
        ctx.label(std::string("nodes ") + aname);
    }
    if (Tracked::live() != live0) ctx.fail("constructions and destructions do not balance");
}

// raw blocks: alignment, disjointness, contents, impossible requests
template <typename T, typename A>
void raw_history(Ctx& ctx, const char* aname, size_t align, A a = A()) {
    Gen& g = ctx.g;
    using Tr = std::allocator_traits<A>;
    struct Blk {
        T* p;
        size_t n;
        unsigned char tag;
    };
    std::vector<Blk> bs;
    size_t ops = 3 + g.below(30);
    std::string log = std::string("raw<") + Mk<T>::name() + "," + aname + ">:";
    size_t most = 0;
    for (size_t o = 0; o < ops; ++o) {
        size_t op = g.pick({5, 3, 2, 1});
        if (op == 0 || (op == 2 && fault_injection())) {
            size_t n = 1 + (g.coin(1, 8) ? g.below(5000) : g.below(60));
            bool failing = op == 2;
            log += (failing ? " fail(" : " alloc(") + S(n) + ")";
            ctx.describe(log);
            if (failing) fail_aligned_at(0);
            long before = aligned_calls();
            T* p = nullptr;
            bool thrown = false;
            try {
                p = const_cast<T*>(Tr::allocate(a, n));
            } catch (const std::bad_alloc&) {
                thrown = true;
            }
            bool hit = aligned_calls() != before;
            fail_aligned_at(-1);
            if (failing && hit) {
                if (!thrown) ctx.fail("allocation that could not be satisfied did not throw bad_alloc");
                ctx.label("allocation failed on purpose");
                continue;
            }
            if (thrown) ctx.fail("bad_alloc without reason after " + log);
            if (!p) ctx.fail("null block after " + log);
            if (reinterpret_cast<uintptr_t>(p) % align) ctx.fail("block not aligned to " + S(align) + " after " + log);
            for (auto& b : bs)
                if (p < b.p + b.n && b.p < p + n) ctx.fail("overlapping blocks after " + log);
            unsigned char tag = static_cast<unsigned char>(1 + o * 7);
            std::memset(static_cast<void*>(p), tag, n * sizeof(T));
            bs.push_back(Blk{p, n, tag});
            most = std::max(most, bs.size());
        } else if (op == 3 && huge_requests) {
            // more than any machine has, up to counts whose size in bytes overflows
            size_t mx = ~size_t(0) / sizeof(T);
            size_t n = 0;
            switch (g.below(5)) {
                case 0: n = mx; break;
                case 1: n = mx + 1 + g.below(40); break;  // wraps to a small block
                case 2: n = ~size_t(0) - g.below(40); break;
                case 3: n = (size_t(1) << 60) / sizeof(T) + g.below(1000); break;
                default: n = mx / 2 + 1 + g.below(1000);
            }
            // (sizeof 1: no overflow, but nothing to satisfy it either)
            if (sizeof(T) == 1 && n < (size_t(1) << 60)) n = ~size_t(0) / 2 + 5;
            log += " huge(" + S(n) + ")";
            ctx.describe(log);
            bool thrown = false;
            T* p = nullptr;
            try {
                p = const_cast<T*>(Tr::allocate(a, n));
                // (keep the compiler from eliding an allocation nobody uses)
                __asm__ volatile("" : "+r"(p) : : "memory");
            } catch (const std::bad_alloc&) {
                thrown = true;
            }
            if (!thrown) ctx.fail("request for " + S(n) + " elements was granted: " + (p ? "block" : "null"));
            ctx.label("impossible request");
        } else if (!bs.empty()) {
            size_t i = g.below(bs.size());
            Blk b = bs[i];
            log += " free#" + S(i);
            ctx.describe(log);
            for (size_t k = 0; k < b.n * sizeof(T); ++k)
                if (reinterpret_cast<unsigned char*>(b.p)[k] != b.tag) ctx.fail("block was overwritten after " + log);
            Tr::deallocate(a, b.p, b.n);
            bs.erase(bs.begin() + long(i));
        }
    }
    for (auto& b : bs) {
        for (size_t k = 0; k < b.n * sizeof(T); ++k)
            if (reinterpret_cast<unsigned char*>(b.p)[k] != b.tag) ctx.fail("block was overwritten after " + log);
        Tr::deallocate(a, b.p, b.n);
    }
    if (most > 1) ctx.nontrivial();
    ctx.label(std::string("raw ") + aname);
}

// last in, first out use of one stack allocator
template <typename T, size_t N>
void stack_history(Ctx& ctx) {
    Gen& g = ctx.g;
    using A = intp::util::stack_allocator<T, N>;
    // canaries on both sides
    std::vector<unsigned char> raw((N + 2) * sizeof(T) + alignof(T), 0xa5);
    void* base = raw.data();
    size_t space = raw.size();
    T* arena = static_cast<T*>(std::align(alignof(T), (N + 2) * sizeof(T), base, space));
    T* buf = arena + 1;
    A a(buf);
    std::string log = "stack<" + std::string(Mk<T>::name()) + "," + S(N) + ">:";
    if (A::capacity() != N || a.max_size() != N || a.buffer() != buf) ctx.fail("capacity or buffer of " + log);
    struct Blk {
        T* p;
        size_t n;
        unsigned char tag;
    };
    std::vector<Blk> st;
    size_t used = 0, most = 0;
    size_t ops = 4 + g.below(40);
    for (size_t o = 0; o < ops; ++o) {
        if (g.coin(3, 5)) {
            size_t n = g.coin(1, 4) ? N - used + g.below(3) : 1 + g.below(N / 3 + 2);
            if (g.coin(1, 10)) n = ~size_t(0) - g.below(N + 3);
            if (g.coin(1, 10)) n = (~size_t(0)) / sizeof(T) - g.below(N + 3);
            if (n == 0) n = 1;
            log += " alloc(" + S(n) + ")";
            ctx.describe(log);
            bool thrown = false;
            T* p = nullptr;
            try {
                p = a.allocate(n);
            } catch (const std::bad_alloc&) {
                thrown = true;
            }
            if (thrown != (n > N - used)) ctx.fail(thrown ? "bad_alloc though there was room: " + log : "more than the buffer holds was granted: " + log);
            if (thrown) {
                ctx.label("stack exhausted");
                continue;
            }
            if (p < buf || p + n > buf + N) ctx.fail("block outside the buffer: " + log);
            for (auto& b : st)
                if (p < b.p + b.n && b.p < p + n) ctx.fail("overlapping blocks: " + log);
            unsigned char tag = static_cast<unsigned char>(1 + o * 11);
            std::memset(static_cast<void*>(p), tag, n * sizeof(T));
            st.push_back(Blk{p, n, tag});
            used += n;
            most = std::max(most, st.size());
        } else if (!st.empty()) {
            Blk b = st.back();
            st.pop_back();
            log += " free";
            ctx.describe(log);
            for (size_t k = 0; k < b.n * sizeof(T); ++k)
                if (reinterpret_cast<unsigned char*>(b.p)[k] != b.tag) ctx.fail("block was overwritten: " + log);
            a.deallocate(b.p, b.n);
            used -= b.n;
        }
    }
    // a vector that reserves once lives in the buffer
    if (st.empty() && g.coin()) {
        size_t n = 1 + g.below(N);
        std::vector<T, A> v(a);
        v.reserve(n);
        for (size_t i = 0; i < n; ++i) v.push_back(Mk<T>::make(long(i) + 1));
        for (size_t i = 0; i < n; ++i)
            if (!(v[i] == Mk<T>::make(long(i) + 1))) ctx.fail("vector contents in the stack buffer");
        if (v.data() < buf || v.data() + n > buf + N) ctx.fail("vector storage outside the buffer");
        bool thrown = false;
        try {
            std::vector<T, A> w(a);
            w.reserve(N + 1);
        } catch (const std::bad_alloc&) {
            thrown = true;
        } catch (const std::length_error&) {
            thrown = true;  // max_size() is N
        }
        if (!thrown) ctx.fail("a vector larger than the buffer was granted");
    }
    for (size_t k = 0; k < sizeof(T); ++k)
        if (reinterpret_cast<unsigned char*>(arena)[k] != 0xa5 ||
            reinterpret_cast<unsigned char*>(buf + N)[k] != 0xa5)
            ctx.fail("memory around the buffer was overwritten: " + log);
    A b(a);
    if (!(a == b) || a != b) ctx.fail("allocators over one buffer compare unequal");
    T other[N];
    A c(other);
    if (a == c || !(a != c)) ctx.fail("allocators over different buffers compare equal");
    if (most > 1) ctx.nontrivial();
    ctx.label("stack");
}

template <size_t... I>
struct seq {};
template <size_t N, size_t... I>
struct mk : mk<N - 1, N - 1, I...> {};
template <size_t... I>
struct mk<0, I...> {
    using type = seq<I...>;
};
template <size_t N>
using seq_t = typename mk<N>::type;
template <typename F, typename P, typename M, size_t... I>
std::unique_ptr<F> make_(seq<I...>, const P& per, const M& m, F*) {
    return std::unique_ptr<F>(new F(per, m, std::make_pair(double(I) - 1, double(I) + 3)...));
}

template <typename T, size_t D, size_t O>
void control_points(Ctx& ctx) {
    Gen& g = ctx.g;
    using F = intp::InterpolationFunction<T, D, O>;
    std::array<size_t, D> s;
    std::array<bool, D> per{};
    std::string log = std::string("function ") + Mk<T>::name() + " D=" + S(D) + " O=" + S(O);
    for (size_t d = 0; d < D; ++d) {
        s[d] = O + 2 + g.below(D == 1 ? 40 : 6);
        per[d] = g.coin(1, 3);
        log += (per[d] ? " p" : " ") + S(s[d]);
    }
    ctx.describe(log);
    intp::Mesh<T, D> m{intp::MeshDimension<D>(s)};
    size_t k = 0;
    for (size_t i = 0; i < m.size(); ++i) m(m.dimension().dimwise_indices(i)) = Mk<T>::make(long(++k % 17));
    std::vector<std::unique_ptr<F>> fs;
    auto make = [&]() -> std::unique_ptr<F> { return make_(seq_t<D>{}, per, m, static_cast<F*>(nullptr)); };
    auto check = [&](const F& f, const char* how) {
        auto* p = f.spline().control_points().data();
        if (reinterpret_cast<uintptr_t>(p) % static_cast<size_t>(intp::Alignment::AVX))
            ctx.fail(std::string("control points not aligned after ") + how);
    };
    fs.push_back(make());
    check(*fs[0], "construction");
    size_t n = 1 + g.below(6);
    for (size_t i = 0; i < n; ++i) {
        size_t j = g.below(fs.size());
        switch (g.below(4)) {
            case 0: fs.push_back(std::unique_ptr<F>(new F(*fs[j]))); break;
            case 1: fs.push_back(make()); break;
            case 2: *fs[g.below(fs.size())] = *fs[j]; break;
            default: {
                std::unique_ptr<F> q(new F(std::move(*fs[j])));
                *fs[j] = std::move(*q);
            }
        }
        for (auto& f : fs) check(*f, "a copy or move");
    }
    for (size_t a = 0; a < fs.size(); ++a)
        for (size_t b = 0; b < a; ++b) {
            auto *p = fs[a]->spline().control_points().data(), *q = fs[b]->spline().control_points().data();
            size_t np = fs[a]->spline().control_points().size(), nq = fs[b]->spline().control_points().size();
            if (p < q + nq && q < p + np) ctx.fail("control points of two functions overlap");
        }
    // one of the allocations of a construction fails
    if (fault_injection()) {
        long c0 = aligned_calls();
        make();
        long calls = aligned_calls() - c0;
        if (calls > 0) {
            long at = static_cast<long>(g.below(static_cast<uint64_t>(calls)));
            fail_aligned_at(at);
            bool thrown = false;
            try {
                make();
            } catch (const std::bad_alloc&) {
                thrown = true;
            }
            fail_aligned_at(-1);
            if (!thrown) ctx.fail("allocation " + S(size_t(at)) + " of a construction failed without bad_alloc");
            check(*make(), "an earlier failure");
            ctx.label("allocation failed on purpose");
        }
    }
    ctx.label("control points");
    ctx.nontrivial();
}
}  // namespace

#if !defined(PART)
// ---- control points and the dispatcher ----
namespace {}
#ifndef UNDER_ASAN
#include <malloc.h>
static std::atomic<long> calls_{0}, fail_at_{-1};
extern "C" void* __libc_memalign(size_t, size_t);
static bool refuse() {
    ++calls_;
    return fail_at_ >= 0 && fail_at_-- == 0;
}
extern "C" int posix_memalign(void** p, size_t al, size_t n) {
    if (refuse()) return ENOMEM;
    void* r = __libc_memalign(al, n);
    if (!r) return ENOMEM;
    *p = r;
    return 0;
}
extern "C" void* aligned_alloc(size_t al, size_t n) {
    return refuse() ? nullptr : __libc_memalign(al, n);
}
bool fault_injection() { return true; }
void fail_aligned_at(long k) { fail_at_ = k; }
long aligned_calls() { return calls_; }
#else
bool fault_injection() { return false; }
void fail_aligned_at(long) {}
long aligned_calls() { return 0; }
#endif

static void body(Ctx& ctx) {
    switch (ctx.g.pick({13, 13, 25, 25, 12, 12})) {
        case 0: part1(ctx); break;
        case 4: part5(ctx); break;
        case 5: part6(ctx); break;
        case 1: part2(ctx); break;
        case 2: part3(ctx); break;
        default: part4(ctx);
    }
}
const pbt::Property& pbt::property() {
    static pbt::Property p = {
        "C20",
        "random histories of container operations (vector, list, deque, map) "
        "and of raw allocations over 6 element types and all alignments "
        "against a model with the default allocator, LIFO histories of stack "
        "allocators up to exhaustion, impossible and refused allocations, and "
        "construction, copy and move of functions for the alignment of their "
        "control points; non-trivial: a vector that held storage, two live "
        "blocks, or a function",
        body};
#ifdef UNDER_ASAN
    p.leaked = [] { return __lsan_do_recoverable_leak_check() != 0; };
    p.leak_every = 400;
#endif
    return p;
}
#endif

#if PART == 1 || PART == 5
template <typename T, intp::Alignment A>
static void al(Ctx& ctx, const char* n) {
    using Al = intp::AlignedAllocator<T, A>;
    switch (ctx.g.below(ctx.g.coin(1, 6) ? 4 : 3)) {
        case 0: vector_history<T, Al>(ctx, n, static_cast<size_t>(A)); break;
        case 1: node_history<T, Al>(ctx, n); break;
        // blocks of constant elements
        case 3:
            raw_history<T, intp::AlignedAllocator<const T, A>>(
                ctx, (std::string(n) + " const").c_str(),
                static_cast<size_t>(A));
            break;
        default: raw_history<T, Al>(ctx, n, static_cast<size_t>(A));
    }
}
template <typename T>
static void ty(Ctx& ctx) {
    switch (ctx.g.below(4)) {
        case 0: al<T, intp::Alignment::AVX>(ctx, "AVX"); break;
        case 1: al<T, intp::Alignment::NORMAL>(ctx, "NORMAL"); break;
        case 2: al<T, intp::Alignment::SSE>(ctx, "SSE"); break;
        default: al<T, intp::Alignment::AVX512>(ctx, "AVX512");
    }
}
#if PART == 1
void part1(Ctx& ctx) {
    switch (ctx.g.below(3)) {
        case 0: ty<double>(ctx); break;
        case 1: ty<std::string>(ctx); break;
        default: ty<Odd24>(ctx);
    }
}
#else
void part5(Ctx& ctx) {
    switch (ctx.g.below(3)) {
        case 0: ty<char>(ctx); break;
        case 1: ty<float>(ctx); break;
        default: ty<Tracked>(ctx);
    }
}
#endif
#endif

#if PART == 2 || PART == 6
template <typename T, typename B>
static void di(Ctx& ctx, const char* n, size_t align) {
    using Al = intp::util::default_init_allocator<T, B>;
    switch (ctx.g.below(3)) {
        case 0: vector_history<T, Al>(ctx, n, align); break;
        case 1: node_history<T, Al>(ctx, n); break;
        default: raw_history<T, Al>(ctx, n, align);
    }
}
template <typename T>
static void ty(Ctx& ctx) {
    if (ctx.g.coin())
        di<T, std::allocator<T>>(ctx, "default-init", alignof(T));
    else
        di<T, intp::AlignedAllocator<T, intp::Alignment::AVX>>(ctx, "default-init AVX", 32);
}
#if PART == 2
void part2(Ctx& ctx) {
    switch (ctx.g.below(3)) {
        case 0: ty<double>(ctx); break;
        case 1: ty<std::string>(ctx); break;
        default: ty<Odd24>(ctx);
    }
}
#else
void part6(Ctx& ctx) {
    switch (ctx.g.below(3)) {
        case 0: ty<char>(ctx); break;
        case 1: ty<float>(ctx); break;
        default: ty<Tracked>(ctx);
    }
}
#endif
#endif

#if PART == 3
void part3(Ctx& ctx) {
    switch (ctx.g.below(6)) {
        case 0: stack_history<double, 16>(ctx); break;
        case 1: stack_history<double, 1>(ctx); break;
        case 2: stack_history<float, 64>(ctx); break;
        case 3: stack_history<char, 100>(ctx); break;
        case 4: stack_history<Odd24, 9>(ctx); break;
        default: stack_history<double, 250>(ctx);
    }
}
#endif

#if PART == 4
void part4(Ctx& ctx) {
    switch (ctx.g.below(7)) {
        case 0: control_points<double, 1, 3>(ctx); break;
        case 1: control_points<double, 2, 2>(ctx); break;
        case 2: control_points<float, 1, 2>(ctx); break;
        case 3: control_points<float, 2, 3>(ctx); break;
        case 4: control_points<std::complex<double>, 1, 3>(ctx); break;
        case 5: control_points<double, 3, 1>(ctx); break;
        default: control_points<long double, 1, 1>(ctx);
    }
}
#endif

// An iterator that really is only an input iterator: every copy reads from the
// same source, incrementing any of them moves them all on, and what was read
// once is gone.
#ifndef SINGLE_PASS_HPP
#define SINGLE_PASS_HPP
#include <cstddef>
#include <iterator>
#include <utility>

namespace sp {
template <typename T>
struct Source {
    const T* p;
    const T* end;
};

template <typename T>
class Iter {
    Source<T>* s_;  // null: past the end

   public:
    using iterator_category = std::input_iterator_tag;
    using value_type = T;
    using difference_type = std::ptrdiff_t;
    using pointer = const T*;
    using reference = const T&;

    explicit Iter(Source<T>* s = nullptr) : s_(s) {}
    reference operator*() const { return *s_->p; }
    pointer operator->() const { return s_->p; }
    Iter& operator++() {
        if (s_->p != s_->end) ++s_->p;
        return *this;
    }
    struct Old {
        T v;
        const T& operator*() const { return v; }
    };
    Old operator++(int) {
        Old o{*s_->p};
        ++*this;
        return o;
    }
    bool done() const { return !s_ || s_->p == s_->end; }
    friend bool operator==(const Iter& a, const Iter& b) {
        return a.done() == b.done();
    }
    friend bool operator!=(const Iter& a, const Iter& b) { return !(a == b); }
};

template <typename C>
struct Stream {
    using T = typename C::value_type;
    Source<T> s;
    explicit Stream(const C& c) : s{c.data(), c.data() + c.size()} {}
    std::pair<Iter<T>, Iter<T>> range() {
        return std::make_pair(Iter<T>(&s), Iter<T>());
    }
};
}  // namespace sp
#endif

#pragma once
// stand-in for mockturtle's ranges of integers
#include <cstddef>
#include <iterator>
namespace mockturtle
{
template <class T> struct range
{
    struct iterator
    {
        using iterator_category = std::input_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t; using pointer = const T*; using reference = T;
        T i;
        T operator*() const { return i; }
        iterator& operator++() { ++i; return *this; }
        iterator operator++(int) { auto r = *this; ++i; return r; }
        bool operator==(const iterator&) const = default;
    };
    T b, e;
    explicit range(T n) : b{}, e{n} {}
    range(T x, T y) : b{x}, e{y} {}
    iterator begin() const { return {b}; }
    iterator end() const { return {e}; }
};
}  // namespace mockturtle

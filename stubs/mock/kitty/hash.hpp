#pragma once
#include "dynamic_truth_table.hpp"
#include <cstddef>
#include <functional>
namespace kitty
{
template <class T> struct hash;
template <> struct hash<dynamic_truth_table> { std::size_t operator()(const dynamic_truth_table& t) const { return t.bits; } };
}  // namespace kitty
template <> struct std::hash<kitty::dynamic_truth_table> { std::size_t operator()(const kitty::dynamic_truth_table& t) const { return t.bits; } };

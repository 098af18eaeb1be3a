#pragma once
#include "operations.hpp"
namespace kitty
{
template <class It> void create_from_words(dynamic_truth_table& t, It b, It) { t.bits = *b & t.mask(); }
inline void create_nth_var(dynamic_truth_table& t, uint8_t i, bool c = false)
{
    t.bits = 0;
    for (uint64_t k = 0; k < t.num_bits(); ++k) { if (((k >> i) & 1) != c) { set_bit(t, k); } }
}
}  // namespace kitty

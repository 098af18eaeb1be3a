#pragma once
#include "dynamic_truth_table.hpp"
namespace kitty
{
inline bool get_bit(const dynamic_truth_table& t, uint64_t i) { return (t.bits >> i) & 1; }
inline void set_bit(dynamic_truth_table& t, uint64_t i) { t.bits |= uint64_t{1} << i; }
inline void clear_bit(dynamic_truth_table& t, uint64_t i) { t.bits &= ~(uint64_t{1} << i); }
inline bool is_const0(const dynamic_truth_table& t) { return t.bits == 0; }
inline dynamic_truth_table operator~(const dynamic_truth_table& t) { dynamic_truth_table r{t.v}; r.bits = ~t.bits & t.mask(); return r; }
inline dynamic_truth_table operator&(const dynamic_truth_table& a, const dynamic_truth_table& b) { dynamic_truth_table r{a.v}; r.bits = a.bits & b.bits; return r; }
inline dynamic_truth_table operator|(const dynamic_truth_table& a, const dynamic_truth_table& b) { dynamic_truth_table r{a.v}; r.bits = a.bits | b.bits; return r; }
inline dynamic_truth_table operator^(const dynamic_truth_table& a, const dynamic_truth_table& b) { dynamic_truth_table r{a.v}; r.bits = a.bits ^ b.bits; return r; }
}  // namespace kitty

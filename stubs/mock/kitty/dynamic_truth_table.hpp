#pragma once
// stand-in for kitty's truth tables of up to 6 variables
#include <cstdint>
namespace kitty
{
struct dynamic_truth_table
{
    explicit dynamic_truth_table(uint32_t n = 0) : v{n} {}
    uint32_t num_vars() const { return v; }
    uint64_t num_bits() const { return uint64_t{1} << v; }
    uint64_t num_blocks() const { return 1; }
    dynamic_truth_table construct() const { return dynamic_truth_table{v}; }
    uint64_t mask() const { return v >= 6 ? ~uint64_t{} : (uint64_t{1} << num_bits()) - 1; }
    uint64_t bits{};
    uint32_t v{};
    bool operator==(const dynamic_truth_table& o) const { return v == o.v && bits == o.bits; }
    bool operator!=(const dynamic_truth_table& o) const { return !(*this == o); }
};
}  // namespace kitty

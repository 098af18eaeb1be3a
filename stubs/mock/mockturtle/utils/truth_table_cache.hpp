#pragma once
// stand-in for mockturtle's truth table cache: a function is stored in the polarity that is 0 for the all-0 assignment
#include <cstdint>
#include <kitty/operations.hpp>
#include <vector>
namespace mockturtle
{
template <class TT> class truth_table_cache
{
  public:
    uint32_t insert(TT t)
    {
        const uint32_t c = kitty::get_bit(t, 0) ? 1 : 0;
        if (c) { t = ~t; }
        for (uint32_t i = 0; i < d.size(); ++i) { if (d[i] == t) { return 2 * i + c; } }
        d.push_back(t);
        return static_cast<uint32_t>(2 * (d.size() - 1) + c);
    }
    TT operator[](uint32_t l) const { return (l & 1) ? ~d[l >> 1] : d[l >> 1]; }
    auto size() const { return d.size(); }
  private:
    std::vector<TT> d;
};
}  // namespace mockturtle

// the rehash policy of std::unordered_map lives in the C++ runtime; any policy is correct as long as it answers consistently: here everything stays in one bucket
#include <unordered_map>
namespace std::__detail
{
bool verif_rehash_policy = true;
size_t _Prime_rehash_policy::_M_next_bkt(size_t) const { return 1; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t, size_t, size_t) const { return {false, 0}; }
}

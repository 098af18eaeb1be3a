// the rehash policy of std::unordered_map lives in the C++ runtime; any policy is correct as long as it answers consistently
#include <unordered_map>
namespace std::__detail
{
bool verif_rehash_policy = true;
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { return n <= 13 ? 13 : n; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t n_bkt, size_t n_elt, size_t n_ins) const
{
    if (n_bkt < 13) { return {true, 13}; }
    if (n_elt + n_ins > 3 * n_bkt) { return {true, 3 * n_bkt}; }
    return {false, 0};
}
}

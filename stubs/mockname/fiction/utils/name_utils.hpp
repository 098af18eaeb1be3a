#pragma once
// stand-in: the names of networks are not analysed
#include <string>
namespace fiction { template <class N> std::string get_name(const N&) { return {}; } }

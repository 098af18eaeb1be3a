#pragma once
// stand-in for mockturtle's network events
#include <functional>
#include <memory>
#include <vector>
namespace mockturtle
{
template <class N> struct network_events
{
    std::vector<std::shared_ptr<std::function<void(const typename N::node&)>>> on_add;
    std::vector<std::shared_ptr<std::function<void(const typename N::node&, const std::vector<typename N::signal>&)>>> on_modified;
    std::vector<std::shared_ptr<std::function<void(const typename N::node&)>>> on_delete;
};
}  // namespace mockturtle

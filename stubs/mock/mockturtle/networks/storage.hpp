#pragma once
// stand-in for mockturtle's storage: the first node is reserved for constant 0
#include <array>
#include <cstdint>
#include <vector>
namespace mockturtle
{
struct node_pointer
{
    uint64_t index{};
    constexpr node_pointer() = default;
    constexpr node_pointer(uint64_t i) : index{i} {}
    constexpr bool operator==(const node_pointer&) const = default;
};
struct cauint64_t
{
    uint32_t h1{}, h2{};
};
template <int Size = 0> struct mixed_fanin_node
{
    using pointer_type = node_pointer;
    std::vector<pointer_type> children{};
    std::array<cauint64_t, Size> data{};
    bool operator==(const mixed_fanin_node& o) const { return children == o.children; }
};
template <class Node, class Data> struct storage
{
    using node_type = Node;
    storage() { nodes.emplace_back(); }
    std::vector<node_type> nodes{};
    std::vector<uint64_t> inputs{};
    std::vector<node_pointer> outputs{};
    Data data{};
};
}  // namespace mockturtle

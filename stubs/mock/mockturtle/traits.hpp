#pragma once
// stand-in for mockturtle's type traits
#include <cstdint>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
namespace mockturtle
{
template <class It, class T> using iterates_over_t = std::enable_if_t<std::is_same_v<typename It::value_type, T>, T>;
template <class It> using iterates_over_truth_table_t = std::enable_if_t<!std::is_same_v<typename It::value_type, bool>, typename It::value_type>;
template <class N> using signal = typename N::signal;
template <class N> using node = typename N::node;
template <class N> struct is_network_type : std::bool_constant<requires { typename N::signal; typename N::node; typename N::storage; N::min_fanin_size; N::max_fanin_size; }> {};
template <class N> inline constexpr bool is_network_type_v = is_network_type<N>::value;
namespace stand_in
{
struct any { template <class T> void operator()(T&&) const {} };
}
#define STAND_IN_TRAIT(name, ...) template <class N> inline constexpr bool has_##name##_v = requires(N& n) { __VA_ARGS__; }; template <class N> using has_##name = std::bool_constant<has_##name##_v<N>>;
#define STAND_IN_NODE(name) STAND_IN_TRAIT(name, n.name(std::declval<typename N::node>()))
#define STAND_IN_SIG(name) STAND_IN_TRAIT(name, n.name(std::declval<typename N::signal>()))
#define STAND_IN_EACH(name) STAND_IN_TRAIT(name, n.name(stand_in::any{}))
#define STAND_IN_EACH_OF(name) STAND_IN_TRAIT(name, n.name(std::declval<typename N::node>(), stand_in::any{}))
#define STAND_IN_GET(name) STAND_IN_TRAIT(name, n.name())
#define STAND_IN_GATE(name) STAND_IN_TRAIT(name, n.name(std::declval<typename N::signal>(), std::declval<typename N::signal>()))
#define STAND_IN_GATE3(name) STAND_IN_TRAIT(name, n.name(std::declval<typename N::signal>(), std::declval<typename N::signal>(), std::declval<typename N::signal>()))
STAND_IN_SIG(get_node) STAND_IN_SIG(is_complemented) STAND_IN_SIG(create_not) STAND_IN_SIG(create_buf) STAND_IN_SIG(create_po) STAND_IN_SIG(has_name) STAND_IN_SIG(get_name)
STAND_IN_NODE(is_constant) STAND_IN_NODE(is_or) STAND_IN_NODE(is_and) STAND_IN_NODE(is_maj) STAND_IN_NODE(is_xor) STAND_IN_NODE(is_pi) STAND_IN_NODE(is_ci) STAND_IN_NODE(is_ite)
STAND_IN_NODE(is_function) STAND_IN_NODE(is_nary_xor) STAND_IN_NODE(is_nary_or) STAND_IN_NODE(is_nary_and) STAND_IN_NODE(fanin_size) STAND_IN_NODE(fanout_size) STAND_IN_NODE(visited)
STAND_IN_NODE(node_to_index) STAND_IN_NODE(make_signal) STAND_IN_NODE(level) STAND_IN_NODE(rank_position) STAND_IN_NODE(node_function) STAND_IN_NODE(is_dead)
STAND_IN_GET(size) STAND_IN_GET(num_pis) STAND_IN_GET(num_pos) STAND_IN_GET(num_cis) STAND_IN_GET(create_pi) STAND_IN_GET(clone) STAND_IN_GET(update_levels) STAND_IN_GET(width)
STAND_IN_GET(get_network_name) STAND_IN_GET(trav_id) STAND_IN_GET(num_registers)
STAND_IN_EACH(foreach_node) STAND_IN_EACH(foreach_pi) STAND_IN_EACH(foreach_po) STAND_IN_EACH(foreach_gate) STAND_IN_EACH(foreach_ci) STAND_IN_EACH(foreach_co) STAND_IN_EACH(foreach_ri) STAND_IN_EACH(foreach_ro)
STAND_IN_EACH_OF(foreach_fanin) STAND_IN_EACH_OF(foreach_fanout)
STAND_IN_GATE(create_and) STAND_IN_GATE(create_or) STAND_IN_GATE(create_xor) STAND_IN_GATE(create_nand) STAND_IN_GATE(create_nor) STAND_IN_GATE(create_xnor) STAND_IN_GATE3(create_maj) STAND_IN_GATE3(create_ite)
STAND_IN_TRAIT(get_constant, n.get_constant(true))
STAND_IN_TRAIT(set_visited, n.set_visited(std::declval<typename N::node>(), uint32_t{}))
STAND_IN_TRAIT(create_node, n.create_node(std::declval<std::vector<typename N::signal>>(), std::declval<decltype(n.node_function(std::declval<typename N::node>()))>()))
STAND_IN_TRAIT(clone_node, n.clone_node(std::declval<N>(), std::declval<typename N::node>(), std::declval<std::vector<typename N::signal>>()))
STAND_IN_TRAIT(set_network_name, n.set_network_name(std::string{}))
STAND_IN_TRAIT(set_name, n.set_name(std::declval<typename N::signal>(), std::string{}))
STAND_IN_TRAIT(set_output_name, n.set_output_name(uint32_t{}, std::string{}))
STAND_IN_TRAIT(get_output_name, n.get_output_name(uint32_t{}))
STAND_IN_TRAIT(has_output_name, n.has_output_name(uint32_t{}))
STAND_IN_TRAIT(create_nary_or, n.create_nary_or(std::declval<std::vector<typename N::signal>>()))
STAND_IN_TRAIT(create_nary_and, n.create_nary_and(std::declval<std::vector<typename N::signal>>()))
STAND_IN_TRAIT(create_nary_xor, n.create_nary_xor(std::declval<std::vector<typename N::signal>>()))
STAND_IN_TRAIT(pi_at, n.pi_at(uint32_t{}))
STAND_IN_TRAIT(swap, n.swap(std::declval<typename N::node>(), std::declval<typename N::node>()))
}  // namespace mockturtle

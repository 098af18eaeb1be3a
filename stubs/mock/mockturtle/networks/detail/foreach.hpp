#pragma once
// stand-in for mockturtle's iteration helpers: fn takes the element, optionally its index, and may return false to stop
#include <cstdint>
#include <type_traits>
#include <utility>
namespace mockturtle::detail
{
template <class Fn, class E, class R> struct callable_with { static constexpr bool value = false; };
template <class Fn, class E, class R> requires std::is_invocable_v<Fn&, E, uint32_t> struct callable_with<Fn, E, R> { static constexpr bool value = std::is_same_v<R, void> || std::is_same_v<std::invoke_result_t<Fn&, E, uint32_t>, R>; };
template <class Fn, class E, class R> inline constexpr bool is_callable_with_index_v = callable_with<Fn, E, R>::value;
template <class Fn, class E, class R> struct callable_without { static constexpr bool value = false; };
template <class Fn, class E, class R> requires std::is_invocable_v<Fn&, E> struct callable_without<Fn, E, R> { static constexpr bool value = std::is_same_v<R, void> || std::is_same_v<std::invoke_result_t<Fn&, E>, R>; };
template <class Fn, class E, class R> inline constexpr bool is_callable_without_index_v = callable_without<Fn, E, R>::value;
template <class Fn, class E> bool call_fn(Fn&& fn, E&& e, uint32_t i)
{
    if constexpr (std::is_invocable_v<Fn&, E, uint32_t>)
    {
        if constexpr (std::is_same_v<std::invoke_result_t<Fn&, E, uint32_t>, bool>) { return fn(std::forward<E>(e), i); }
        else { fn(std::forward<E>(e), i); return true; }
    }
    else if constexpr (std::is_same_v<std::invoke_result_t<Fn&, E>, bool>) { return fn(std::forward<E>(e)); }
    else { fn(std::forward<E>(e)); return true; }
}
template <class It, class End, class Fn> It foreach_element(It b, End e, Fn&& fn, uint32_t i = 0)
{
    for (; b != e; ++b) { if (!call_fn(fn, *b, i++)) { return b; } }
    return b;
}
template <class It, class Pred, class Fn> It foreach_element_if(It b, It e, Pred&& p, Fn&& fn, uint32_t i = 0)
{
    for (; b != e; ++b) { if (!p(*b)) { continue; } if (!call_fn(fn, *b, i++)) { return b; } }
    return b;
}
template <class It, class El, class T, class Fn> It foreach_element_transform(It b, It e, T&& t, Fn&& fn, uint32_t i = 0)
{
    for (; b != e; ++b) { if (!call_fn(fn, static_cast<El>(t(*b)), i++)) { return b; } }
    return b;
}
}  // namespace mockturtle::detail

// stand-in for mockturtle/utils/stopwatch.hpp: takes no time
#pragma once
#include <chrono>
#include <utility>
namespace mockturtle
{
template <class Clock = std::chrono::steady_clock>
class stopwatch
{
  public:
    using clock = Clock;
    using duration = typename Clock::duration;
    using time_point = typename Clock::time_point;
    explicit stopwatch(duration&) {}
    stopwatch(const stopwatch&) = delete;
};
template <class Fn, class... Args>
auto call_with_stopwatch(typename stopwatch<>::duration&, Fn&& fn, Args&&... args)
{
    return std::forward<Fn>(fn)(std::forward<Args>(args)...);
}
template <class Duration>
inline double to_seconds(const Duration& d) { return std::chrono::duration_cast<std::chrono::duration<double>>(d).count(); }
}

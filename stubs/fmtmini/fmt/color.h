#pragma once
// colours are left out: the text alone
#include <fmt/format.h>
namespace fmt
{
enum class color { green, red, yellow };
struct text_style {};
inline text_style fg(color) { return {}; }
template <class... A> std::string format(text_style, const char* f, const A&... a) { return format(f, a...); }
}

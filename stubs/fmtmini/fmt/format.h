#pragma once
// a minimal formatting library with the interface the repository uses: replacement fields without options only
#include <cstdlib>
#include <iterator>
#include <string>
#include <string_view>
#include <type_traits>
namespace fmt
{
template <class T, class = void> struct formatter;
using out_it = std::back_insert_iterator<std::string>;
struct mini_ctx { std::string* s; out_it out() const { return std::back_inserter(*s); } };
struct mini_parse { const char* b; const char* begin() const { return b; } const char* end() const { return b; } };
inline const char* runtime(const char* f) { return f; }
inline const char* runtime(const std::string& f) { return f.c_str(); }
template <class R> struct join_view { const R* r; const char* sep; };
template <class R> join_view<R> join(const R& r, const char* sep) { return {&r, sep}; }
inline out_it put_text(out_it o, const char* t) { while (*t) { *o = *t; ++t; } return o; }
template <class U> out_it put_unsigned(out_it o, U u)
{
    if (u >= 10) { o = put_unsigned(o, static_cast<U>(u / 10)); }
    *o = static_cast<char>('0' + static_cast<int>(u % 10));
    return o;
}
template <class T> out_it put(out_it o, const T& v);
template <class R> out_it put(out_it o, const join_view<R>& j)
{
    bool first = true;
    for (const auto& e : *j.r) { if (!first) { o = put_text(o, j.sep); } first = false; o = put(o, e); }
    return o;
}
template <class T> out_it put(out_it o, const T& v)
{
    if constexpr (std::is_same_v<T, bool>) { return put_text(o, v ? "true" : "false"); }
    else if constexpr (std::is_same_v<T, char>) { *o = v; return o; }
    else if constexpr (std::is_integral_v<T>)
    {
        using U = std::make_unsigned_t<T>;
        if constexpr (std::is_signed_v<T>) { if (v < 0) { *o = '-'; return put_unsigned<U>(o, static_cast<U>(U{0} - static_cast<U>(v))); } }
        return put_unsigned<U>(o, static_cast<U>(v));
    }
    else if constexpr (std::is_floating_point_v<T>) { std::abort(); }  // not modelled
    else if constexpr (std::is_convertible_v<T, std::string_view>) { const std::string_view t = v; for (const char c : t) { *o = c; } return o; }
    else
    {
        std::string s;
        mini_ctx c{&s};
        formatter<T> f;
        f.format(v, c);
        for (const char k : s) { *o = k; }
        return o;
    }
}
inline out_it vput(out_it o, const char* f)
{
    for (; *f; ++f)
    {
        if (*f == '{' && f[1] == '{') { ++f; }
        else if (*f == '}' && f[1] == '}') { ++f; }
        else if (*f == '{' || *f == '}') { std::abort(); }
        *o = *f;
    }
    return o;
}
template <class A, class... R> out_it vput(out_it o, const char* f, const A& a, const R&... r)
{
    for (; *f; ++f)
    {
        if (*f == '{' && f[1] == '{') { ++f; }
        else if (*f == '}' && f[1] == '}') { ++f; }
        else if (*f == '{' && f[1] == '}') { o = put(o, a); return vput(o, f + 2, r...); }
        else if (*f == '{' || *f == '}') { std::abort(); }
        *o = *f;
    }
    return o;
}
// bit-fields do not bind to references of their own: arguments are taken by value
template <class O, class... A> O format_to(O o, const char* f, const A&... a) { return vput(o, f, a...); }
template <class... A> std::string format(const char* f, const A&... a) { std::string s; vput(std::back_inserter(s), f, a...); return s; }
template <class T> std::string to_string(const T& t) { std::string s; put(std::back_inserter(s), t); return s; }
}  // namespace fmt

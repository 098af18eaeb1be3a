#pragma once
// stand-in: a document that takes everything and keeps nothing
#include <cstddef>
namespace nlohmann
{
struct json
{
    template <class K> json& operator[](const K&) { static json sink; return sink; }
    template <class T> json& operator=(const T&) { return *this; }
    json() = default;
    json(const json&) {}
    json& operator=(const json&) { return *this; }
};
}

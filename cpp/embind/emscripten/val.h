// Stand-in of embind: values given to and taken from the script side.
#pragma once

#include <any>
#include <cstdint>
#include <functional>
#include <string>
#include <utility>
#include <vector>

namespace emscripten
{
template <class T>
struct memory_view
{
    std::size_t size = 0;
    const T* data = nullptr;
};

template <class T>
memory_view<T> typed_memory_view(std::size_t size, const T* data) { return {size, data}; }

class val
{
public:
    val() = default;
    template <class T> explicit val(memory_view<T> v) : bytes(v.data, v.data + v.size) {}
    template <class T> explicit val(T* p) : ptr(p) {}
    static val array(std::vector<std::uint8_t> b) { val v; v.bytes = std::move(b); return v; }
    std::vector<std::uint8_t> bytes;
    std::any ptr;
};

template <class T>
std::vector<T> convertJSArrayToNumberVector(const val& v) { return std::vector<T>(v.bytes.begin(), v.bytes.end()); }
}

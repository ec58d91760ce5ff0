// Calls of kernels with an array of pointers to their arguments.
#pragma once
#include <utility>
namespace fibcu
{
template <class... A, std::size_t... I> __attribute__((no_sanitize("thread"))) inline void call_(void (*f)(A...), void** a, std::index_sequence<I...>) { f(*(A*)a[I]...); }
template <class... A> __attribute__((no_sanitize("thread"))) inline void call(void (*f)(A...), void** a) { call_(f, a, std::index_sequence_for<A...>()); }
template <class... A> struct Sizes { static constexpr std::size_t v[sizeof...(A) + 1] = {sizeof(A)...}; };
template <class... A> constexpr std::size_t Sizes<A...>::v[];
template <class... A> constexpr const std::size_t* sizes(void (*)(A...)) { return Sizes<A...>::v; }
template <class... A> constexpr int count(void (*)(A...)) { return sizeof...(A); }
}
#define FIBCU_KERNEL(name) \
    extern "C" __attribute__((visibility("default"), no_sanitize("thread"))) void fibk_##name(void** a) { fibcu::call(&::name, a); } \
    extern "C" __attribute__((visibility("default"))) const int fibn_##name = fibcu::count(&::name); \
    extern "C" __attribute__((visibility("default"))) const std::size_t* const fibs_##name = fibcu::sizes(&::name);

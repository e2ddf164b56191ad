#pragma once
// Stand-in for blaze/util/Memory.h (Blaze is not installed here): the two
// functions Core/Memory.h uses, with blaze's documented behaviour (aligned
// storage for `size` objects of T: uninitialised for built-in types, value
// constructed, and destroyed by deallocate, for all others).
#include <cstddef>
#include <cstdlib>
#include <new>
#include <type_traits>
namespace blaze {
template <class T> T* allocate(std::size_t size) {
    if constexpr (std::is_fundamental<T>::value) {
        void* p = std::malloc(size * sizeof(T) ? size * sizeof(T) : 1);
        if (!p) throw std::bad_alloc();
        return static_cast<T*>(p);
    } else {
        char* p = static_cast<char*>(std::malloc(size * sizeof(T) + 16));
        if (!p) throw std::bad_alloc();
        *reinterpret_cast<std::size_t*>(p) = size;
        T* t = reinterpret_cast<T*>(p + 16);
        for (std::size_t i = 0; i < size; ++i) ::new (t + i) T();
        return t;
    }
}
template <class T> void deallocate(T* t) noexcept {
    if constexpr (std::is_fundamental<T>::value) std::free(const_cast<void*>(static_cast<void const*>(t)));
    else if (t) {
        char* p = reinterpret_cast<char*>(const_cast<std::remove_cv_t<T>*>(t)) - 16;
        for (std::size_t i = 0, n = *reinterpret_cast<std::size_t*>(p); i < n; ++i) t[i].~T();
        std::free(p);
    }
}
}

// Stand-in for the (not installed) blaze/util/Memory.h. Same contract as blaze:
// allocate<T>(n) gives SIMD-aligned memory, class types default-constructed,
// built-in types uninitialised; deallocate destroys and releases.
// "Uninitialised" is made deterministic: every byte is VERIF_POISON (0xC3 by default),
// so that a read of unwritten elements is a visible, repeatable wrong value.
#pragma once
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <new>
#include <type_traits>
#ifndef VERIF_POISON
#define VERIF_POISON 0xC3
#endif
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
// the bookkeeping header must not hide an access in front of the array
#define VERIF_HIDE_HEADER(raw) ASAN_POISON_MEMORY_REGION(raw, ::blaze::verif::header)
#define VERIF_SHOW_HEADER(raw) ASAN_UNPOISON_MEMORY_REGION(raw, ::blaze::verif::header)
#else
#define VERIF_HIDE_HEADER(raw)
#define VERIF_SHOW_HEADER(raw)
#endif
namespace blaze { namespace verif {
// allocation accounting used by the ownership checks
struct Stats { long live = 0; unsigned long total = 0; };
inline Stats& stats() { static Stats s; return s; }
constexpr std::size_t header = 64;
// called before every allocation; throws where the explorer lets the memory run out
inline void (*&before_allocation())() { static void (*f)() = nullptr; return f; }
// larger arrays (in bytes) are refused
inline std::size_t& limit() { static std::size_t n = std::size_t(1) << 30; return n; }
}
template <class T> T* allocate(std::size_t n)
{
    if (n > verif::limit() / sizeof(T)) throw std::bad_alloc();
    if (verif::before_allocation()) verif::before_allocation()();
    void* raw = nullptr;
    if (posix_memalign(&raw, 64, verif::header + n * sizeof(T))) throw std::bad_alloc();
    *static_cast<std::size_t*>(raw) = n;
    VERIF_HIDE_HEADER(raw);
    char* mem = static_cast<char*>(raw) + verif::header;
    if (n) std::memset(mem, VERIF_POISON, n * sizeof(T));
    T* p = reinterpret_cast<T*>(mem);
    if constexpr (!std::is_trivially_default_constructible<T>::value)
        for (std::size_t i = 0; i != n; ++i) new (p + i) T();
    ++verif::stats().live; ++verif::stats().total;
    return p;
}
template <class T> void deallocate(T* p) noexcept
{
    if (!p) return;
    char* raw = reinterpret_cast<char*>(const_cast<std::remove_const_t<T>*>(p)) - verif::header;
    VERIF_SHOW_HEADER(raw);
    if constexpr (!std::is_trivially_destructible<T>::value) {
        std::size_t n = *reinterpret_cast<std::size_t*>(raw);
        for (std::size_t i = 0; i != n; ++i) p[i].~T();
    }
    --verif::stats().live;
    std::free(raw);
}
}

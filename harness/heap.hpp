// Every heap block alive, and allocations made to fail on request. Included by
// one source file of a program only.
#pragma once
#include <cstdlib>
#include <new>
namespace heap
{
    static std::size_t blocks, bytes, peak, made;
    static long fail_in = -1; // the allocation to fail, counted from now
    static bool failed;
    inline void* take(std::size_t n)
    {
        ++made;
        if (fail_in > 0 && --fail_in == 0) { failed = true; fail_in = -1; throw std::bad_alloc(); }
        auto* p = static_cast<std::size_t*>(std::malloc(n + 16));
        if (!p) throw std::bad_alloc();
        *p = n;
        ++blocks; bytes += n;
        if (bytes > peak) peak = bytes;
        return reinterpret_cast<char*>(p) + 16;
    }
    inline void drop(void* q)
    {
        if (!q) return;
        auto* p = reinterpret_cast<std::size_t*>(static_cast<char*>(q) - 16);
        --blocks; bytes -= *p;
        std::free(p);
    }
}
void* operator new(std::size_t n) { return heap::take(n); }
void* operator new[](std::size_t n) { return heap::take(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { try { return heap::take(n); } catch (...) { return nullptr; } }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { try { return heap::take(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { heap::drop(p); }
void operator delete[](void* p) noexcept { heap::drop(p); }
void operator delete(void* p, std::size_t) noexcept { heap::drop(p); }
void operator delete[](void* p, std::size_t) noexcept { heap::drop(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { heap::drop(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { heap::drop(p); }

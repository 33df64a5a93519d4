// operator new with an upper bound (throws instead of exhausting the machine)
// and heap blocks of the exact size, so that the sanitizer sees every overrun.
#pragma once
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <new>
#include <span>

namespace heap
{
inline std::size_t limit = std::size_t(1) << 28;
inline std::size_t live_limit = ~std::size_t(0); // of all blocks together
inline std::size_t live = 0, base = 0;
inline bool armed = false; // the limits apply only to the code under test
struct Arm
{
    Arm()
    {
        base = live;
        armed = true;
    }
    ~Arm() { armed = false; }
};
inline unsigned long long refused = 0;
inline long blocks = 0; // alive
inline unsigned long long requests = 0, fail_at = ~0ull; // while a Fault is alive
inline bool counting = false;
// Makes the k-th allocation (from 0) fail once while alive.
struct Fault
{
    explicit Fault(unsigned long long k = ~0ull)
    {
        requests = 0;
        fail_at = k;
        counting = true;
    }
    ~Fault() { counting = false; }
};
inline void * get(std::size_t n)
{
    if (counting && requests++ == fail_at) throw std::bad_alloc{};
    if (armed && (n > limit || live > base && live - base > live_limit)) {
        ++refused;
        throw std::bad_alloc{};
    }
    if (void * p = std::malloc(n ? n : 1)) {
        live += malloc_usable_size(p);
        ++blocks;
        return p;
    }
    throw std::bad_alloc{};
}
inline void put(void * p)
{
    if (p) {
        live -= malloc_usable_size(p);
        --blocks;
    }
    std::free(p);
}

// A block of exactly n bytes, at `shift` bytes past the allocation's start.
template <typename Byte>
struct Exact
{
    char * base;
    std::size_t n, shift;
    explicit Exact(std::size_t n, std::size_t shift = 0) : base(static_cast<char *>(std::malloc(n + shift))), n(n), shift(shift) {}
    template <typename Bytes>
    static Exact copy(const Bytes & b, std::size_t n, std::size_t shift = 0)
    {
        Exact e(n, shift);
        if (n) std::memcpy(e.base + shift, std::data(b), n);
        return e;
    }
    Exact(Exact && o) noexcept : base(o.base), n(o.n), shift(o.shift) { o.base = nullptr; }
    ~Exact() { std::free(base); }
    Byte * data() const { return reinterpret_cast<Byte *>(base + shift); }
    std::span<Byte> span() const { return {data(), n}; }
};
} // namespace heap

#ifdef HEAP_IMPL
void * operator new(std::size_t n) { return heap::get(n); }
void * operator new[](std::size_t n) { return heap::get(n); }
void operator delete(void * p) noexcept { heap::put(p); }
void operator delete[](void * p) noexcept { heap::put(p); }
void operator delete(void * p, std::size_t) noexcept { heap::put(p); }
void operator delete[](void * p, std::size_t) noexcept { heap::put(p); }
#endif

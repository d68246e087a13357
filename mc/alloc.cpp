#include "alloc.hpp"

#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>

namespace mcalloc {
State state{};
}
namespace {
constexpr std::uint64_t IN_USE = 0x600d600d600d600dull, FREED = 0xdeaddeaddeaddeadull;
void* allocate(std::size_t n) {
    auto& s = mcalloc::state;
    if (s.counting && ++s.calls == s.fail_at) { ++s.failed; return nullptr; }
    if (n > (1ull << 40)) return nullptr;
    auto* h = static_cast<std::uint64_t*>(malloc(n + 16));
    if (!h) return nullptr;
    h[0] = IN_USE;
    h[1] = n;
    s.live += (long long)n;
    ++s.blocks;
    if (s.live > s.peak) s.peak = s.live;
    return h + 2;
}
void release(void* p) {
    if (!p) return;
    auto* h = static_cast<std::uint64_t*>(p) - 2;
    if (h[0] != IN_USE) { fprintf(stderr, "memory freed twice\n"); abort(); }
    h[0] = FREED;
    mcalloc::state.live -= (long long)h[1];
    --mcalloc::state.blocks;
    memset(p, 0xDD, h[1]);
    free(h);
}
}  // namespace
void* operator new(std::size_t n) { void* p = allocate(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](std::size_t n) { void* p = allocate(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return allocate(n); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return allocate(n); }
void operator delete(void* p) noexcept { release(p); }
void operator delete[](void* p) noexcept { release(p); }
void operator delete(void* p, std::size_t) noexcept { release(p); }
void operator delete[](void* p, std::size_t) noexcept { release(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { release(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { release(p); }

// Native executions only: every allocation ends at an inaccessible page, is filled with a pattern that reads as NaN, and
// the few bytes between its end and the page are checked when it is released.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <new>
#include <sys/mman.h>

namespace guard {
constexpr std::size_t page = 4096, head = 32;
inline void* get(std::size_t n)
{
    auto const body  = (n + 15) / 16 * 16;
    auto const pages = (body + head + page - 1) / page;
    auto* base = static_cast<unsigned char*>(::mmap(nullptr, (pages + 1) * page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    if (base == MAP_FAILED) { std::abort(); }
    ::mprotect(base + pages * page, page, PROT_NONE);
    auto* p = base + pages * page - body;
    std::memset(p - 16, 0xFF, body + 16);
    std::size_t info[2] = {n, pages};
    std::memcpy(p - head, info, sizeof(info));
    return p;
}
inline void put(void* q) noexcept
{
    if (q == nullptr) { return; }
    auto* p = static_cast<unsigned char*>(q);
    std::size_t info[2];
    std::memcpy(info, p - head, sizeof(info));
    auto const body = (info[0] + 15) / 16 * 16;
    for (std::size_t i = info[0]; i < body; ++i) { if (p[i] != 0xFF) { std::abort(); } }
    for (std::size_t i = 1; i <= 16; ++i) { if (*(p - i) != 0xFF) { std::abort(); } }
    ::munmap(p + body - info[1] * page, (info[1] + 1) * page);
}
}  // namespace guard
void* operator new(std::size_t n) { return guard::get(n); }
void* operator new[](std::size_t n) { return guard::get(n); }
void operator delete(void* p) noexcept { guard::put(p); }
void operator delete[](void* p) noexcept { guard::put(p); }
void operator delete(void* p, std::size_t) noexcept { guard::put(p); }
void operator delete[](void* p, std::size_t) noexcept { guard::put(p); }

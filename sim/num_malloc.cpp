// Replacement of malloc and friends in the numeric harness: blocks that the C
// libraries (SUNDIALS) allocate on behalf of the code under test are counted,
// so that what is not released is noticed as it is for operator new.
#include <cstddef>
#include "core.hpp"
#if !defined(__SANITIZE_ADDRESS__)
namespace {
// Live tracked blocks of the current epoch, open addressing. Blocks beyond
// its capacity are not tracked.
constexpr std::size_t cap = 1 << 14;
thread_local void* slot[cap];
thread_local vsim::u64 slot_epoch[cap];
thread_local std::size_t used = 0;

std::size_t hash(void* p) { return (std::size_t)(((std::uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 50) % cap; }

void add(void* p) {
    if (p == nullptr || used >= cap / 2) return;
    std::size_t i = hash(p);
    while (slot[i] != nullptr) i = (i + 1) % cap;
    slot[i] = p;
    slot_epoch[i] = vsim::alloc_epoch();
    used++;
    vsim::alloc_c_add(1);
}
void remove(void* p) {
    if (used == 0 || p == nullptr) return;
    std::size_t i = hash(p);
    while (slot[i] != p) {
        if (slot[i] == nullptr) return;
        i = (i + 1) % cap;
    }
    if (slot_epoch[i] == vsim::alloc_epoch()) vsim::alloc_c_add(-1);
    used--;
    // close the gap
    std::size_t j = i;
    for (;;) {
        slot[i] = nullptr;
        for (;;) {
            j = (j + 1) % cap;
            if (slot[j] == nullptr) return;
            std::size_t k = hash(slot[j]);
            if (i <= j ? (i < k && k <= j) : (i < k || k <= j)) continue;
            break;
        }
        slot[i] = slot[j];
        slot_epoch[i] = slot_epoch[j];
        i = j;
    }
}
}  // namespace
extern "C" {
void* __libc_malloc(std::size_t);
void* __libc_calloc(std::size_t, std::size_t);
void* __libc_realloc(void*, std::size_t);
void __libc_free(void*);
void* malloc(std::size_t n) {
    void* p = __libc_malloc(n);
    if (vsim::alloc_c_tracked()) add(p);
    return p;
}
void* calloc(std::size_t a, std::size_t b) {
    void* p = __libc_calloc(a, b);
    if (vsim::alloc_c_tracked()) add(p);
    return p;
}
void* realloc(void* o, std::size_t n) {
    if (o == nullptr) return malloc(n);
    remove(o);
    void* p = __libc_realloc(o, n);
    if (vsim::alloc_c_tracked()) add(p);
    return p;
}
void free(void* p) {
    remove(p);
    __libc_free(p);
}
}
#endif

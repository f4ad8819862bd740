// Replacement of the global allocation functions: every allocation of the
// process passes through here, so that the simulator can count the blocks
// that are alive, fail a chosen allocation, fill fresh memory with a known
// pattern and scribble over released memory.
#include <cstdlib>
#include <cstring>
#include <new>
#include "core.hpp"

#if defined(__SANITIZE_ADDRESS__)
#define VSIM_ASAN 1
#include <sanitizer/asan_interface.h>
#endif

namespace vsim {
static thread_local u64 epoch = 0;
static thread_local AllocStats cur;
static thread_local u64 fail_in = 0;
static thread_local bool failed = false;
static thread_local int quiet = 1;
static thread_local u64 fill = 0xA5;

void alloc_epoch_begin() {
    epoch++;
    cur = AllocStats();
    failed = false;
    fail_in = 0;
}
static thread_local volatile bool inside = false;
u64 alloc_epoch() { return epoch; }
bool alloc_c_tracked() { return quiet == 0 && !inside; }
void alloc_c_add(long blocks) { cur.c_live += blocks; }
static bool no_balance = false;
void alloc_no_balance() { no_balance = true; }
AllocStats alloc_epoch_stats() {
    AllocStats s = cur;
    if (no_balance) s.live = s.live_bytes = s.c_live = 0;
    return s;
}
void alloc_fail_at(u64 n) {
    fail_in = n;
    failed = false;
}
bool alloc_failed() { return failed; }
AllocQuiet::AllocQuiet() { quiet++; }
AllocQuiet::~AllocQuiet() { quiet--; }
AllocLoud::AllocLoud() : saved(quiet) { quiet = 0; }
AllocLoud::~AllocLoud() { quiet = saved; }
int alloc_quiet_depth() { return quiet; }
void alloc_quiet_depth(int d) { quiet = d; }
void alloc_fill_seed(u64 s) { fill = s; }

struct Head {
    u64 magic;
    u64 size;
    u64 epoch;  // zero when the block is not tracked
    u64 pad;
};
static constexpr u64 live_magic = 0x5649464c49564531ull;
static constexpr u64 dead_magic = 0x5649464445414431ull;

// Released blocks are held back for a while, so that an access through a
// stale pointer meets the scribbled pattern and not a recycled block.
static constexpr int quarantine_n = 512;
static Head* quarantine[quarantine_n];
static int quarantine_at = 0;

static void* get(std::size_t n) {
    if (quiet == 0 && fail_in != 0 && --fail_in == 0) {
        failed = true;
        throw std::bad_alloc();
    }
    inside = true;
    Head* h = (Head*)std::malloc(sizeof(Head) + n);
    inside = false;
    if (h == nullptr) throw std::bad_alloc();
    h->magic = live_magic;
    h->size = n;
    h->epoch = quiet == 0 ? epoch : 0;
    if (h->epoch != 0) {
        cur.allocs++;
        cur.live++;
        cur.live_bytes += (long)n;
    }
#ifndef VSIM_ASAN
    if (n <= 4096) std::memset(h + 1, (int)(fill & 0xff), n);
#else
    ASAN_POISON_MEMORY_REGION(h, sizeof(Head));
#endif
    return h + 1;
}

static void put(void* p) {
    if (p == nullptr) return;
    Head* h = (Head*)p - 1;
#ifdef VSIM_ASAN
    ASAN_UNPOISON_MEMORY_REGION(h, sizeof(Head));
#endif
    if (h->magic != live_magic) {
        static char const m[] = "\nVSIM-BADFREE\n";
        (void)!fwrite(m, 1, sizeof(m) - 1, stderr);
        std::abort();
    }
    h->magic = dead_magic;
    if (h->epoch != 0 && h->epoch == epoch) {
        cur.live--;
        cur.live_bytes -= (long)h->size;
    }
#ifdef VSIM_ASAN
    std::free(h);
#else
    if (h->size <= 4096) {
        std::memset(p, 0xDD, h->size);
        Head* old = quarantine[quarantine_at];
        quarantine[quarantine_at] = h;
        quarantine_at = (quarantine_at + 1) % quarantine_n;
        if (old != nullptr) std::free(old);
    } else {
        std::free(h);
    }
#endif
}
}  // namespace vsim

void* operator new(std::size_t n) { return vsim::get(n); }
void* operator new[](std::size_t n) { return vsim::get(n); }
void operator delete(void* p) noexcept { vsim::put(p); }
void operator delete[](void* p) noexcept { vsim::put(p); }
void operator delete(void* p, std::size_t) noexcept { vsim::put(p); }
void operator delete[](void* p, std::size_t) noexcept { vsim::put(p); }
static void* get_nothrow(std::size_t n) noexcept {
    try {
        return vsim::get(n);
    } catch (...) {
        return nullptr;
    }
}
void* operator new(std::size_t n, std::nothrow_t const&) noexcept { return get_nothrow(n); }
void* operator new[](std::size_t n, std::nothrow_t const&) noexcept { return get_nothrow(n); }
void operator delete(void* p, std::nothrow_t const&) noexcept { vsim::put(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { vsim::put(p); }

// The runtime behind -fsanitize=thread, replaced: every instrumented access
// is a point at which the seeded scheduler may pass the baton to another
// thread, and is checked against the accesses of the other threads that do
// not happen before it. This file itself is never instrumented.
#include <cxxabi.h>
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <atomic>
#include "thr.hpp"

extern "C" {
extern char __data_start[], _end[];
void* __libc_malloc(std::size_t);
void __libc_free(void*);
void* __libc_calloc(std::size_t, std::size_t);
void* __libc_realloc(void*, std::size_t);
}

namespace thr {
using vsim::u32;
using vsim::u64;
using u8 = unsigned char;

constexpr int NT = max_threads + 1;  // the last one is the main thread
struct VC {
    u32 c[NT] = {};
    void join(VC const &o) {
        for (int i = 0; i < NT; i++)
            if (o.c[i] > c[i]) c[i] = o.c[i];
    }
};
struct Gate {  // binary semaphore
    std::atomic<int> v{0};
    void open() {
        v.store(1, std::memory_order_release);
        syscall(SYS_futex, &v, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
    }
    void wait() {
        while (v.exchange(0, std::memory_order_acquire) == 0)
            syscall(SYS_futex, &v, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    }
};
struct Th {
    int id = 0;
    Gate gate;
    bool runnable = false;
    VC vc, rel_fence, acq_pending;
    char *stack_lo = nullptr, *stack_hi = nullptr;
    std::function<void()> const* job = nullptr;
    pthread_t handle;
};

// What is known of 8 bytes of memory
enum Acc { PR, PW, AR, AW };  // plain or atomic, read or write
struct Rec {
    u32 clock[4] = {};
    u8 mask[4] = {};
    void* pc[4] = {};
};
struct Shadow {
    u64 key = 0;
    u64 gen = 0;
    VC sync;
    Rec by[max_threads];
};

static Th th[max_threads];
static Gate main_gate;
static bool created = false;
static bool live = false;             // simulated threads are at work
static __thread Th* me = nullptr;
static __thread int in_rt = 0;
static vsim::Ctx* sched_ctx = nullptr;
static Result res;
static u64 quantum = 0;
static bool only_shared = false;      // count accesses to globals and atomics only
static int bits = 0;
static u64 switch_cap = 0;
static int n_threads = 0;

static constexpr u64 cells = 1 << 17;
static Shadow* shadow = nullptr;
static u64 gen = 0, used = 0;

static Shadow* find(u64 key, bool make) {
    u64 h = ((((key >> 4) * 0x9e3779b97f4a7c15ull) >> 40) << 4) + (key & 15);
    for (u64 i = 0; i < 200; i++) {  // a crowded place: not looked after
        Shadow &s = shadow[(h + i) & (cells - 1)];
        if (s.gen != gen) {
            if (!make || used > cells / 2) return nullptr;
            used++;
            s = Shadow();
            s.key = key;
            s.gen = gen;
            return &s;
        }
        if (s.key == key) return &s;
    }
    return nullptr;
}

static void forget(void* p, std::size_t n) {  // the memory is given to someone else
    if (!live || me == nullptr || p == nullptr) return;
    u64 a = (u64)p >> 3, b = ((u64)p + n + 7) >> 3;
    if (b - a > cells) {
        for (u64 i = 0; i < cells; i++)
            if (shadow[i].gen == gen && shadow[i].key >= a && shadow[i].key < b) {
                u64 k = shadow[i].key;
                shadow[i] = Shadow();
                shadow[i].key = k;
                shadow[i].gen = gen;
            }
        return;
    }
    for (u64 k = a; k < b; k++) {
        Shadow* s = find(k, false);
        if (s != nullptr) {
            *s = Shadow();
            s->key = k;
            s->gen = gen;
        }
    }
}

static std::string name_of(void* pc) {
    Dl_info d;
    if (dladdr(pc, &d) == 0 || d.dli_sname == nullptr) return "?";
    int st = 0;
    char* s = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st);
    std::string r = s != nullptr ? s : d.dli_sname;
    std::free(s);
    return r;
}

static void race(void* addr, Acc a, void* pc, Acc b, void* pc2) {
    if (res.race) return;
    res.race = true;
    vsim::AllocQuiet quiet;
    static char const* const n[] = {"read", "write", "atomic read", "atomic write"};
    bool global = (char*)addr >= __data_start && (char*)addr < _end;
    res.race_what = vsim::cat(n[a], " by ", name_of(pc), " and ", n[b], " by ", name_of(pc2), " of ",
                              global ? name_of(addr) : std::string("memory in use by another thread"));
}

// ---- The scheduler ----------------------------------------------------------
static void draw_quantum() {
    quantum = 1u << 20;
    if (res.switches >= switch_cap) return;
    u32 b = sched_ctx->below((u32)bits + 1);
    if (b != 0) quantum = 1 + sched_ctx->below(1u << b);
}

static void pass(bool can_go_on) {
    Th* t = me;
    int other[max_threads], n = 0;
    for (int i = 0; i < n_threads; i++)
        if (i != t->id && th[i].runnable) other[n++] = i;
    if (n == 0) {
        if (!can_go_on) {
            static char const m[] = "\nVSIM-HANG (every thread waits)\n";
            (void)!write(1, m, sizeof(m) - 1);
            _exit(77);
        }
        draw_quantum();
        return;
    }
    int k = other[n == 1 ? 0 : sched_ctx->below((u32)n)];
    res.switches++;
    if (can_go_on) res.preempted++;
    else res.blocked++;
    res.schedule = vsim::mix(res.schedule, (u64)k, res.accesses);
    draw_quantum();
    th[k].gate.open();
    t->gate.wait();
}

static inline bool active() { return me != nullptr && in_rt == 0; }

static inline void point(bool shared) {  // the thread may be interrupted here
    if (only_shared && !shared) return;
    if (--quantum == 0) {
        in_rt++;
        pass(true);
        in_rt--;
    }
}

// A thread that cannot go on lets another one run
static void wait_turn() {
    in_rt++;
    pass(false);
    in_rt--;
}

static void check(Th* t, char* p, int size, Acc a, void* pc) {
    while (size > 0) {
        u64 key = (u64)p >> 3;
        int off = (int)((u64)p & 7), n = 8 - off < size ? 8 - off : size;
        u8 m = (u8)(((1u << n) - 1) << off);
        Shadow* s = find(key, true);
        if (s != nullptr && s->by[t->id].clock[a] == t->vc.c[t->id] && (s->by[t->id].mask[a] & m) == m) {
            // seen already
        } else if (s != nullptr) {
            for (int i = 0; i < n_threads; i++) {
                if (i == t->id) continue;
                Rec &c = s->by[i];
                for (int k = 0; k < 4; k++) {
                    if (a == PR && (k == PR || k == AR)) continue;
                    if (a == AR && k != PW) continue;
                    if (a == AW && (k == AR || k == AW)) continue;
                    if ((c.mask[k] & m) != 0 && c.clock[k] > t->vc.c[i]) race(p, a, pc, (Acc)k, c.pc[k]);
                }
            }
            Rec &c = s->by[t->id];
            u32 now = t->vc.c[t->id];
            if (c.clock[a] == now) {
                c.mask[a] |= m;
            } else {  // what was noted before is kept with the later time only for the same bytes
                c.mask[a] = m;
                c.clock[a] = now;
            }
            c.pc[a] = pc;
        }
        p += n;
        size -= n;
    }
}

static inline void access(void* addr, int size, Acc a, void* pc) {
    if (!active()) return;
    Th* t = me;
    char* p = (char*)addr;
    if (p >= t->stack_lo && p < t->stack_hi) return;
    res.accesses++;
    bool global = p >= __data_start && p < _end;
    point(global || a >= AR);
    in_rt++;
    check(t, p, size, a, pc);
    in_rt--;
}

static void acquire(Th* t, void* p) {
    Shadow* s = find((u64)p >> 3, true);
    if (s != nullptr) t->vc.join(s->sync);
}
static void release(Th* t, void* p, bool keep) {
    Shadow* s = find((u64)p >> 3, true);
    if (s == nullptr) return;
    if (keep) s->sync.join(t->vc);
    else s->sync = t->vc;
    t->vc.c[t->id]++;
}

static bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

enum What { LOAD, STORE, RMW };
static void atomic(void* p, int size, What w, int mo, void* pc) {
    if (!active()) return;
    Th* t = me;
    res.sync++;
    if (w != STORE) access(p, size, AR, pc);
    else access(p, size, AW, pc);
    in_rt++;
    if (w == RMW) check(t, (char*)p, size, AW, pc);
    Shadow* s = find((u64)p >> 3, true);
    if (s != nullptr) {
        if (w != STORE) {
            if (acq(mo)) t->vc.join(s->sync);
            else t->acq_pending.join(s->sync);
        }
        if (w != LOAD) {
            if (rel(mo)) {
                release(t, p, w == RMW);
            } else if (w == STORE) {
                s->sync = t->rel_fence;
            } else {
                s->sync.join(t->rel_fence);
            }
        }
    }
    in_rt--;
}
static void fence(int mo) {
    if (!active()) return;
    Th* t = me;
    if (acq(mo)) t->vc.join(t->acq_pending);
    if (rel(mo)) {
        t->rel_fence = t->vc;
        t->vc.c[t->id]++;
    }
}

// ---- Threads ----------------------------------------------------------------
static void* thread_main(void* arg) {
    Th* t = (Th*)arg;
    pthread_attr_t at;
    pthread_getattr_np(pthread_self(), &at);
    void* lo;
    std::size_t n;
    pthread_attr_getstack(&at, &lo, &n);
    pthread_attr_destroy(&at);
    t->stack_lo = (char*)lo;
    t->stack_hi = (char*)lo + n;
    for (;;) {
        t->gate.wait();
        me = t;
        (*t->job)();
        me = nullptr;
        // Done: someone else gets the baton
        t->runnable = false;
        int other[max_threads], k = 0;
        for (int i = 0; i < n_threads; i++)
            if (th[i].runnable) other[k++] = i;
        if (k == 0) {
            main_gate.open();
        } else {
            int j = other[k == 1 ? 0 : sched_ctx->below((u32)k)];
            res.schedule = vsim::mix(res.schedule, (u64)j, res.accesses);
            draw_quantum();
            th[j].gate.open();
        }
    }
    return nullptr;
}

int self() { return me != nullptr ? me->id : -1; }

Result run(vsim::Ctx &c, std::vector<std::function<void()>> const &jobs) {
    if (!created) {
        created = true;
        shadow = (Shadow*)mmap(nullptr, sizeof(Shadow) * cells, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        pthread_attr_t a;
        pthread_attr_init(&a);
        pthread_attr_setstacksize(&a, 8u << 20);
        for (int i = 0; i < (int)jobs.size(); i++) {
            th[i].id = i;
            pthread_create(&th[i].handle, &a, thread_main, &th[i]);
        }
        pthread_attr_destroy(&a);
    }
    gen++;
    used = 0;
    res = Result();
    sched_ctx = &c;
    n_threads = (int)jobs.size();
    only_shared = c.chance(1, 2);
    static int const choice[2][4] = {{5, 8, 11, 14}, {1, 2, 3, 5}};
    bits = choice[only_shared ? 1 : 0][c.below(4)];
    switch_cap = c.thorough ? 4000 : 600;
    for (int i = 0; i < n_threads; i++) {
        th[i].vc = VC();
        th[i].vc.c[i] = 1;
        th[i].rel_fence = th[i].acq_pending = VC();
        th[i].runnable = true;
        th[i].job = &jobs[(std::size_t)i];
    }
    draw_quantum();
    int first = (int)c.below((u32)n_threads);
    live = true;
    th[first].gate.open();
    main_gate.wait();
    live = false;
    sched_ctx = nullptr;
    Result r = res;
    return r;
}

}  // namespace thr

using namespace thr;

// ---- Memory -----------------------------------------------------------------
extern "C" {
void* malloc(std::size_t n) {
    void* p = __libc_malloc(n);
    if (active()) forget(p, n);
    return p;
}
void free(void* p) { __libc_free(p); }
void* calloc(std::size_t a, std::size_t b) {
    void* p = __libc_calloc(a, b);
    if (active()) forget(p, a * b);
    return p;
}
void* realloc(void* q, std::size_t n) {
    void* p = __libc_realloc(q, n);
    if (active()) forget(p, n);
    return p;
}

// ---- Locks ------------------------------------------------------------------
using MF = int (*)(pthread_mutex_t*);
using RF = int (*)(pthread_rwlock_t*);
using OF = int (*)(pthread_once_t*, void (*)());
static void* real(void* &f, char const* name) {
    if (f == nullptr) f = dlsym(RTLD_NEXT, name);
    return f;
}
#define REAL(type, name)  \
    static void* p_##name; \
    type name##_ = (type)real(p_##name, #name)
static int try_until(int (*f)(void*), void* m) {
    res.sync++;
    point(true);
    for (;;) {
        int r = f(m);
        if (r != EBUSY) {
            if (r == 0) {
                in_rt++;
                acquire(me, m);
                in_rt--;
            }
            return r;
        }
        wait_turn();
    }
}
int pthread_mutex_lock(pthread_mutex_t* m) {
    REAL(MF, pthread_mutex_lock);
    REAL(MF, pthread_mutex_trylock);
    if (!active()) return pthread_mutex_lock_(m);
    return try_until((int (*)(void*))pthread_mutex_trylock_, m);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    REAL(MF, pthread_mutex_trylock);
    if (!active()) return pthread_mutex_trylock_(m);
    res.sync++;
    point(true);
    int r = pthread_mutex_trylock_(m);
    if (r == 0) acquire(me, m);
    return r;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    REAL(MF, pthread_mutex_unlock);
    if (active()) release(me, m, false);
    int r = pthread_mutex_unlock_(m);
    if (active()) {
        res.sync++;
        point(true);
    }
    return r;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
    REAL(RF, pthread_rwlock_rdlock);
    REAL(RF, pthread_rwlock_tryrdlock);
    if (!active()) return pthread_rwlock_rdlock_(m);
    return try_until((int (*)(void*))pthread_rwlock_tryrdlock_, m);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
    REAL(RF, pthread_rwlock_wrlock);
    REAL(RF, pthread_rwlock_trywrlock);
    if (!active()) return pthread_rwlock_wrlock_(m);
    return try_until((int (*)(void*))pthread_rwlock_trywrlock_, m);
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
    REAL(RF, pthread_rwlock_unlock);
    if (active()) release(me, m, true);
    int r = pthread_rwlock_unlock_(m);
    if (active()) {
        res.sync++;
        point(true);
    }
    return r;
}
int pthread_once(pthread_once_t* o, void (*fn)()) {
    REAL(OF, pthread_once);
    if (!active()) return pthread_once_(o, fn);
    // State kept in the once word itself, as the real one does: 0 new, 2 done
    static_assert(sizeof(pthread_once_t) == sizeof(int), "");
    res.sync++;
    point(true);
    for (;;) {
        if (*o == 2) {
            acquire(me, o);
            return 0;
        }
        if (*o == 0) {
            *o = 1;
            try {
                fn();
            } catch (...) {
                *o = 0;
                throw;
            }
            release(me, o, true);
            *o = 2;
            return 0;
        }
        wait_turn();
    }
}

// Guards of the variables of functions: first byte done, second byte busy
int __cxa_guard_acquire(long long* g) {
    u8* b = (u8*)g;
    if (active()) {
        res.sync++;
        point(true);
    }
    while (b[0] == 0 && b[1] != 0) {
        if (!active()) abort();
        wait_turn();
    }
    if (b[0] != 0) {
        if (active()) acquire(me, g);
        return 0;
    }
    b[1] = 1;
    return 1;
}
void __cxa_guard_release(long long* g) {
    u8* b = (u8*)g;
    if (active()) release(me, g, true);
    b[1] = 0;
    b[0] = 1;
}
void __cxa_guard_abort(long long* g) { ((u8*)g)[1] = 0; }

// ---- What the compiler calls ------------------------------------------------
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n)                                                                       \
    void __tsan_read##n(void* p) { access(p, n, PR, PC); }                          \
    void __tsan_write##n(void* p) { access(p, n, PW, PC); }                         \
    void __tsan_unaligned_read##n(void* p) { access(p, n, PR, PC); }                \
    void __tsan_unaligned_write##n(void* p) { access(p, n, PW, PC); }               \
    void __tsan_volatile_read##n(void* p) { access(p, n, PR, PC); }                 \
    void __tsan_volatile_write##n(void* p) { access(p, n, PW, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access(p, (int)n, PR, PC); }
void __tsan_write_range(void* p, unsigned long n) { access(p, (int)n, PW, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, PR, PC); }
void __tsan_vptr_update(void** p, void* v) { access(p, 8, *p == v ? PR : PW, PC); }

#define AT(bits, T)                                                                                       \
    T __tsan_atomic##bits##_load(T const volatile* p, int mo) {                                           \
        atomic((void*)p, bits / 8, LOAD, mo, PC);                                                         \
        return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                      \
    }                                                                                                     \
    void __tsan_atomic##bits##_store(T volatile* p, T v, int mo) {                                        \
        atomic((void*)p, bits / 8, STORE, mo, PC);                                                        \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                         \
    }                                                                                                     \
    T __tsan_atomic##bits##_exchange(T volatile* p, T v, int mo) {                                        \
        atomic((void*)p, bits / 8, RMW, mo, PC);                                                          \
        return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                               \
    }                                                                                                     \
    T __tsan_atomic##bits##_fetch_add(T volatile* p, T v, int mo) {                                       \
        atomic((void*)p, bits / 8, RMW, mo, PC);                                                          \
        return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);                                                \
    }                                                                                                     \
    T __tsan_atomic##bits##_fetch_sub(T volatile* p, T v, int mo) {                                       \
        atomic((void*)p, bits / 8, RMW, mo, PC);                                                          \
        return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);                                                \
    }                                                                                                     \
    T __tsan_atomic##bits##_fetch_and(T volatile* p, T v, int mo) {                                       \
        atomic((void*)p, bits / 8, RMW, mo, PC);                                                          \
        return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);                                                \
    }                                                                                                     \
    T __tsan_atomic##bits##_fetch_or(T volatile* p, T v, int mo) {                                        \
        atomic((void*)p, bits / 8, RMW, mo, PC);                                                          \
        return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);                                                 \
    }                                                                                                     \
    T __tsan_atomic##bits##_fetch_xor(T volatile* p, T v, int mo) {                                       \
        atomic((void*)p, bits / 8, RMW, mo, PC);                                                          \
        return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST);                                                \
    }                                                                                                     \
    T __tsan_atomic##bits##_fetch_nand(T volatile* p, T v, int mo) {                                      \
        atomic((void*)p, bits / 8, RMW, mo, PC);                                                          \
        return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST);                                               \
    }                                                                                                     \
    int __tsan_atomic##bits##_compare_exchange_strong(T volatile* p, T* e, T v, int mo, int) {            \
        atomic((void*)p, bits / 8, RMW, mo, PC);                                                          \
        return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);           \
    }                                                                                                     \
    int __tsan_atomic##bits##_compare_exchange_weak(T volatile* p, T* e, T v, int mo, int) {              \
        atomic((void*)p, bits / 8, RMW, mo, PC);                                                          \
        return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);           \
    }                                                                                                     \
    T __tsan_atomic##bits##_compare_exchange_val(T volatile* p, T e, T v, int mo, int) {                  \
        atomic((void*)p, bits / 8, RMW, mo, PC);                                                          \
        __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                 \
        return e;                                                                                         \
    }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int mo) { fence(mo); }
void __tsan_atomic_signal_fence(int) {}
}

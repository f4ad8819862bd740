// Core of the deterministic simulator: the seeded choice tape, the run
// context (event log, fault counters, coverage), violations, and the worker
// main loop shared by every harness.
#ifndef VSIM_CORE_HPP
#define VSIM_CORE_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>

namespace vsim {

using u64 = std::uint64_t;
using u32 = std::uint32_t;

inline u64 mix(u64 x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
inline u64 mix(u64 a, u64 b) { return mix(a ^ (mix(b) + 0x7f4a7c15ull + (a << 6) + (a >> 2))); }
inline u64 mix(u64 a, u64 b, u64 c) { return mix(mix(a, b), c); }
inline u64 mix(u64 a, u64 b, u64 c, u64 d) { return mix(mix(a, b, c), d); }
inline u64 hash_str(char const* s) {
    u64 h = 1469598103934665603ull;
    while (*s) h = (h ^ (unsigned char)*s++) * 1099511628211ull;
    return h;
}

// Thrown to abandon a run when an oracle is contradicted. Deliberately not
// derived from std::exception, so that nothing below can swallow it.
struct Violation {
    std::string cls;  // class of violation, used as signature
    std::string msg;
};
// A run that the generator decides to abandon without a verdict.
struct Discard {};

// Every random decision of a run comes from here. In record mode the draws
// come from a PRNG seeded with (VERIF_SEED, harness, run index) and are
// recorded in a buffer that survives a crash of the process. In replay mode
// they come from the recorded tape; a tape that is too short reads as zeros.
class Tape {
  public:
    void start_random(u64 seed) {
        replay = false;
        s = s0 = seed;
        n = 0;
        keeping = tapping = nullptr;
        echoing = nullptr;
    }
    void start_replay(std::vector<u32> const &d) {
        replay = true;
        data = d;
        n = 0;
        keeping = tapping = nullptr;
        echoing = nullptr;
    }
    void set_buffer(u32* buf, u64* count, u64 cap) {
        rec = buf;
        rec_n = count;
        rec_cap = cap;
    }
    // Take the choices from another tape
    void start_from(Tape* t) { source = t; }
    // Choices that were made in another process
    void moved_on(u64 to) { n = to; }
    // The same choices once more, from the first
    void rewind() {
        n = 0;
        s = s0;
        keeping = tapping = nullptr;
        echoing = nullptr;
    }
    // A value in [0,bound)
    u32 draw(u32 bound);
    u64 draws() const { return n; }
    // Keep a copy of the choices made from now on (nullptr: no more)
    void keep(std::vector<u32>* into) { keeping = into; }
    // The same, for the one that runs a whole check inside of its own
    void tap(std::vector<u32>* into) { tapping = into; }
    // Make the choices in the list again (nullptr: back to new choices)
    void echo(std::vector<u32> const* from) {
        echoing = from;
        echo_at = 0;
    }
    // Interrupt an echo with new choices, and return to it
    std::vector<u32> const* suspend() {
        auto e = echoing;
        echoing = nullptr;
        return e;
    }
    void resume(std::vector<u32> const* e) { echoing = e; }

  private:
    bool replay = false;
    u64 s = 0, s0 = 0;
    u64 n = 0;
    Tape* source = nullptr;
    std::vector<u32> data;
    std::vector<u32>* keeping = nullptr;
    std::vector<u32>* tapping = nullptr;
    std::vector<u32> const* echoing = nullptr;
    std::size_t echo_at = 0;
    u32* rec = nullptr;
    u64* rec_n = nullptr;
    u64 rec_cap = 0;
};

// Allocations of the simulator itself are not those of the code under test
struct AllocQuiet {
    AllocQuiet();
    ~AllocQuiet();
};

// The context of the run in progress.
class Ctx {
  public:
    Tape tape;
    std::string prop;
    bool thorough = false;
    bool tracing = false;
    u64 log_hash = 0;
    u64 log_n = 0;
    std::vector<std::string> trace;
    // Accumulated over all the runs of this worker
    std::map<std::string, u64> counters;
    std::map<std::string, u64> faults;
    std::map<std::string, u64> runs_with;   // number of runs having feature
    double sim_time = 0.0;
    std::unordered_set<u64> states;         // distinct abstract states reached
    std::unordered_set<u64> histories;      // distinct run histories
    // Per run
    bool nontrivial = false;
    std::map<std::string, u64> run_features;
    u64 budget = 0;                         // remaining callback budget of this run

    // Choices
    u32 below(u32 n) { return tape.draw(n); }
    int range(int lo, int hi) { return lo + (int)tape.draw((u32)(hi - lo + 1)); }
    // True with probability num/den; zero on the tape means false
    bool chance(u32 num, u32 den) { return tape.draw(den) >= den - num; }
    template <typename T>
    T const &pick(std::vector<T> const &v) {
        return v[tape.draw((u32)v.size())];
    }

    // Record something that happened in the event log of this run.
    void log(char const* what, u64 a = 0, u64 b = 0, u64 c = 0, u64 d = 0) {
        log_hash = mix(log_hash, hash_str(what));
        log_hash = mix(log_hash, a, b, mix(c, d));
        log_n++;
    }
    void note(std::string const &line) {
        AllocQuiet quiet;
        if (tracing && trace.size() < 4000) trace.push_back(line);
    }
    void fault(char const* kind) {
        AllocQuiet quiet;
        faults[kind]++;
        run_features[kind]++;
        nontrivial = true;
    }
    void count(char const* what, u64 k = 1) {
        AllocQuiet quiet;
        counters[what] += k;
    }
    void feature(char const* what) {
        AllocQuiet quiet;
        run_features[what]++;
    }
    void state(u64 h) {
        AllocQuiet quiet;
        if (states.size() < 400000) states.insert(h);
    }
    // Each callback made by the code under test spends budget, so that a
    // livelock inside of it is a repeatable violation and not a hang.
    void spend() {
        if (budget == 0) violate("no-progress", "step budget exhausted: the code under test did not finish");
        budget--;
    }
    [[noreturn]] void violate(std::string const &cls, std::string const &msg) {
        first_violation(cls, msg);
        throw Violation{cls, msg};
    }
    // Violation noted where no exception may be thrown (destructors)
    void first_violation(std::string const &cls, std::string const &msg) {
        if (!have_violation) {
            have_violation = true;
            violation = Violation{cls, msg};
        }
    }
    bool have_violation = false;
    Violation violation;
};

extern __thread Ctx* ctx;  // the context of the run in this thread

template <typename... A>
std::string cat(A const &... a) {
    std::ostringstream o;
    o.precision(17);
    (void)std::initializer_list<int>{(o << a, 0)...};
    return o.str();
}

// Lazily built trace line
#define VNOTE(...)                                      \
    do {                                                \
        if (vsim::ctx->tracing) {                       \
            vsim::AllocQuiet quiet_note;                \
            vsim::ctx->note(vsim::cat(__VA_ARGS__));    \
        }                                               \
    } while (0)

#define VCHECK(cond, cls, ...)                                     \
    do {                                                           \
        if (!(cond)) vsim::ctx->violate(cls, vsim::cat(__VA_ARGS__)); \
    } while (0)

// Supplied by the harness: execute one run using the choices of c.tape.
using RunFn = std::function<void(Ctx &)>;

// Execute the rest of the run in a process of its own, forked from this one,
// in which nothing of an earlier run has left a trace.
void forked(Ctx &c, RunFn const &fn);

// The worker's main loop.
int worker_main(int argc, char** argv, std::map<std::string, RunFn> const &props);

// ---- Allocation control (alloc.cpp) -------------------------------------
struct AllocStats {
    u64 allocs = 0;       // allocations since mark
    long live = 0;        // live blocks allocated since mark
    long live_bytes = 0;
    long c_live = 0;      // live blocks of malloc and friends, where these are tracked
};
// Start a new allocation epoch: blocks allocated from now on are tracked.
void alloc_epoch_begin();
AllocStats alloc_epoch_stats();
void alloc_c_add(long blocks);  // for the replacement of malloc
bool alloc_c_tracked();        // should malloc track a block now?
u64 alloc_epoch();
void alloc_no_balance();  // report that every block was released, from now on
// Fail the n-th allocation from now (1 = the next one); 0 disarms.
void alloc_fail_at(u64 n);
bool alloc_failed();            // did an armed failure fire?
// Allocations are tracked, and may be failed, only while the code under test
// runs: inside of an AllocLoud and outside of any AllocQuiet nested in it.
struct AllocLoud {
    AllocLoud();
    ~AllocLoud();
    int saved;
};
// For code that is left without its destructors being run
int alloc_quiet_depth();
void alloc_quiet_depth(int);
// Seed used to fill fresh memory
void alloc_fill_seed(u64 s);

// ---- Placement control ----------------------------------------------------
// Models are allocated in slots of a pool, in a slot order chosen by the
// seed: the order of their addresses, which orders the pointer-keyed sets in
// the code under test, is therefore a choice of the simulator.
class Pool {
  public:
    static constexpr std::size_t slot_size = 2048;
    static constexpr int slots = 4096;
    static void reset(u64 perm_seed, int use_slots = 256);
    static void* alloc(std::size_t n);
    static void release(void* p);
    static int live();
    static void forget();  // what is there will never be used again
    static thread_local unsigned char fill;   // content of fresh memory
};

}  // namespace vsim
#endif

// Simulated threads: real threads of which only the one that holds the baton
// runs, with a happens-before race detector behind the accesses that the
// compiler instruments.
#ifndef THR_HPP
#define THR_HPP
#include <functional>
#include <vector>
#include "core.hpp"

namespace thr {
constexpr int max_threads = 4;
struct Result {
    vsim::u64 accesses = 0;      // accesses by the threads outside of their stacks
    vsim::u64 sync = 0;          // atomic accesses, locks and guards among them
    vsim::u64 switches = 0;      // times the baton was passed on
    vsim::u64 preempted = 0;     // switches made while the thread could have gone on
    vsim::u64 blocked = 0;       // switches made because a lock was held
    vsim::u64 schedule = 0;      // hash of the interleaving
    bool race = false;
    std::string race_what;
};
// Run the jobs at the same time; every choice of schedule is taken from the
// tape of c. Jobs may not throw.
Result run(vsim::Ctx &c, std::vector<std::function<void()>> const &jobs);
// Number of the simulated thread (from 0), -1 outside of them
int self();
}  // namespace thr
#endif

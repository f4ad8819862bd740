// Several simulations at the same time, each in a thread of its own.
#include <algorithm>
#include <memory>
#include "adevs/adevs.h"
#include "num.hpp"
#include "thr.hpp"

namespace net {
extern int only_inst;
void net_props(std::map<std::string, vsim::RunFn> &p);
}

namespace thr {
using vsim::cat;
using vsim::Ctx;
using vsim::u32;
using vsim::u64;

// ---- A small network that can be made, run and let go in different threads --
struct Cell : adevs::Atomic<long, double> {
    adevs::pin_t in, out;
    double period, left;
    u64 s;
    long n = 0, got = 0;
    Cell(adevs::pin_t in, adevs::pin_t out, double period, u64 s) : in(in), out(out), period(period), left(period), s(s) {}
    void delta_int() {
        n++;
        left = period;
    }
    void delta_ext(double e, std::list<adevs::PinValue<long>> const &xb) {
        left -= e;
        take(xb);
    }
    void delta_conf(std::list<adevs::PinValue<long>> const &xb) {
        delta_int();
        take(xb);
    }
    void take(std::list<adevs::PinValue<long>> const &xb) {
        long sum = 0;
        for (auto &x : xb) {
            got++;
            sum += x.value;
            if (x.pin != in) sum += 1000000;
        }
        s = vsim::mix(s, (u64)sum);
    }
    void output_func(std::list<adevs::PinValue<long>> &yb) { yb.push_back(adevs::PinValue<long>(out, (long)(s % 1000))); }
    double ta() { return left; }
};

struct Plan {
    int cells = 1, edges = 0, steps = 1, own_pins = 0;
    bool nested = false;
    std::vector<int> ends;
    std::vector<double> periods;
};

struct Ring {
    Plan p;
    std::vector<adevs::pin_t> pins;
    std::vector<std::shared_ptr<Cell>> cells;
    std::shared_ptr<adevs::Graph<long, double>> g;
    std::shared_ptr<adevs::Simulator<long, double>> sim;
    std::unique_ptr<unsigned char[]> place;  // the models, in order of their addresses
    u64 hash = 0;
    ~Ring() { drop(); }
    // Pins with an even number are shared by all simulations, when there are any
    void make(Plan const &plan, std::vector<adevs::pin_t> const &shared) {
        p = plan;
        for (int i = 0; i < 2 * p.cells; i++) {
            if (!shared.empty() && i % 2 == 0) pins.push_back(shared[(std::size_t)i % shared.size()]);
            else pins.push_back(adevs::pin_t());
        }
        std::size_t const room = (sizeof(Cell) + 63) / 64 * 64;
        place.reset(new unsigned char[room * (std::size_t)p.cells]);
        g = std::make_shared<adevs::Graph<long, double>>();
        for (int i = 0; i < p.cells; i++) {
            std::shared_ptr<Cell> c(new (place.get() + i * room) Cell(pins[(std::size_t)(2 * i)], pins[(std::size_t)(2 * i + 1)],
                                                                      p.periods[(std::size_t)i], (u64)i + 5),
                                    [](Cell* x) { x->~Cell(); });
            cells.push_back(c);
            g->add_atomic(c);
            g->connect(c->in, c);
        }
        for (int i = 0; i < p.edges; i++)
            g->connect(cells[(std::size_t)p.ends[(std::size_t)(2 * i)]]->out, cells[(std::size_t)p.ends[(std::size_t)(2 * i + 1)]]->in);
        sim = std::make_shared<adevs::Simulator<long, double>>(g);
    }
    void work(int n) {
        for (int k = 0; k < n && sim->nextEventTime() < adevs_inf<double>(); k++) {
            double t = sim->execNextEvent();
            u64 h = 0;
            for (auto &c : cells) h += vsim::mix(c->s, (u64)c->n, (u64)c->got);
            hash = vsim::mix(hash, h, (u64)(t * 1024.0));
        }
    }
    void drop() {
        sim.reset();
        g.reset();
        cells.clear();
    }
};

static Plan draw_plan(Ctx &c) {
    Plan p;
    p.cells = 1 + (int)c.below(5);
    p.edges = (int)c.below(8);
    p.steps = 1 + (int)c.below(30);
    for (int i = 0; i < 2 * p.edges; i++) p.ends.push_back((int)c.below((u32)p.cells));
    for (int i = 0; i < p.cells; i++) p.periods.push_back(0.125 * (double)(1 + c.below(8)));
    return p;
}

// ---- Jobs of the other checks, alone and then at the same time --------------
struct Outcome {
    int rc = 0;  // 0 done, 1 violation, 2 discarded, 3 exception
    std::string cls;
    u64 hash = 0, n = 0;
    bool operator==(Outcome const &o) const { return rc == o.rc && cls == o.cls && hash == o.hash && n == o.n; }
};

static Outcome perform(Ctx &c, vsim::RunFn const &fn) {
    Outcome o;
    int depth = vsim::alloc_quiet_depth();
    try {
        fn(c);
    } catch (vsim::Violation &v) {
        c.first_violation(v.cls, v.msg);
    } catch (vsim::Discard &) {
        o.rc = 2;
    } catch (std::exception &e) {
        o.rc = 3;
    }
    vsim::alloc_quiet_depth(depth);
    if (c.have_violation) {
        o.rc = 1;
        o.cls = c.violation.cls;
        vsim::Pool::forget();
    }
    o.hash = c.log_hash;
    o.n = c.log_n;
    return o;
}

struct Job {
    std::string kind;
    vsim::RunFn const* fn = nullptr;
    std::vector<vsim::u32> choices;
    Outcome alone, together;
    int pins = 0;
    std::vector<adevs::pin_t> made;
    Plan plan;
    std::unique_ptr<Ring> ring;
    bool made_early = false, dropped_late = false;
    std::unique_ptr<Ctx> ctx;
};

static std::map<std::string, vsim::RunFn> const &kinds() {
    static std::map<std::string, vsim::RunFn>* p = nullptr;
    if (p == nullptr) {
        p = new std::map<std::string, vsim::RunFn>;
        net::net_props(*p);
        (*p)["C13"] = num::hybrid_run;
        (*p)["C14"] = num::solver_run;
        (*p)["C15"] = num::locator_run;
        (*p)["C16"] = num::cvode_run;
        (*p)["C17"] = num::fmi_run;
    }
    return *p;
}

static void threads_run(Ctx &c) {
    static char const* const names[] = {"pins", "ring", "C01", "C03", "C05", "C06", "C07", "C08", "C09", "C11",
                                        "C02", "C13", "C14", "C15", "C16", "C12", "C17"};
    constexpr int n_names = (int)(sizeof names / sizeof names[0]);
    auto &reg = kinds();
    int n = 2 + (c.chance(1, 3) ? (int)c.below((u32)max_threads - 1) : 0);
    std::vector<Job> jobs((std::size_t)n);
    int first = -1;
    bool same = c.chance(1, 2);  // the same kind of work in all threads
    net::only_inst = c.chance(3, 4) ? (int)c.below(10) : -1;
    std::vector<adevs::pin_t> shared((std::size_t)c.below(4));
    for (auto &j : jobs) {
        int k = (int)c.below((u32)n_names);
        if (c.chance(1, 4)) k = (int)c.below(2);
        if (first < 0) first = k;
        else if (same) k = first;
        j.kind = names[k];
        c.log("job", (u64)k);
        c.feature(names[k]);
        if (k == 0) {
            j.pins = 1 + (int)c.below(40);
        } else if (k == 1) {
            j.plan = draw_plan(c);
            j.made_early = c.chance(1, 6);
            j.dropped_late = c.chance(1, 3);
            j.ring.reset(new Ring);
            if (j.made_early) j.ring->make(j.plan, shared);
        } else {
            j.fn = &reg.at(j.kind);
        }
        j.ctx.reset(new Ctx);
        j.ctx->prop = c.prop;
        j.ctx->thorough = c.thorough;
        j.ctx->budget = 4000000;
        j.ctx->tape.start_from(&c.tape);
        j.ctx->tape.tap(&j.choices);
        VNOTE("thread ", &j - &jobs[0], ": ", j.kind);
    }
    std::vector<std::function<void()>> work;
    for (auto &jj : jobs) {
        Job* j = &jj;
        auto* sh = &shared;
        work.push_back([j, sh]() {
            vsim::ctx = j->ctx.get();
            if (j->fn != nullptr) {
                j->together = perform(*j->ctx, *j->fn);
            } else if (j->pins != 0) {
                for (int i = 0; i < j->pins; i++) j->made.push_back(adevs::pin_t());
            } else {
                if (!j->made_early) j->ring->make(j->plan, *sh);
                j->ring->work(j->plan.steps);
                if (!j->dropped_late) j->ring->drop();
            }
        });
    }
    Result r = run(c, work);
    c.nontrivial = r.switches > 0;
    c.log("schedule", r.schedule, r.accesses, r.switches);
    c.state(vsim::mix(r.schedule, (u64)n));
    c.count("accesses", r.accesses);
    c.count("atomic accesses, locks and guards", r.sync);
    c.count("thread switches", r.switches);
    c.count("switches at a held lock", r.blocked);
    if (r.preempted != 0) c.fault("preempted");
    VNOTE(r.accesses, " accesses, ", r.sync, " of them atomic, ", r.switches, " switches");
    VCHECK(!r.race, "data-race", r.race_what);
    std::vector<adevs::pin_t> all(shared);
    Ctx* const outer = vsim::ctx;
    for (auto &j : jobs) {
        int i = (int)(&j - &jobs[0]);
        if (j.fn != nullptr) {
            std::unique_ptr<Ctx> x(new Ctx);
            x->prop = c.prop;
            x->thorough = c.thorough;
            x->budget = 4000000;
            x->tape.start_replay(j.choices);
            vsim::ctx = x.get();
            j.alone = perform(*x, *j.fn);
            vsim::ctx = outer;
            c.log("history", j.alone.hash, j.alone.n, (u64)j.alone.rc);
            if (j.alone.rc == 1) c.feature("violation-alone");
            VCHECK(j.alone == j.together, "other-history", "thread ", i, " (", j.kind, ") has another history than alone: outcome ",
                   j.together.rc, " ", j.together.cls, " ", j.together.n, " events, alone ", j.alone.rc, " ", j.alone.cls, " ",
                   j.alone.n, " events ", j.ctx->violation.msg);
            c.sim_time += j.ctx->sim_time;
            for (auto &kv : j.ctx->faults) c.faults[kv.first] += kv.second;
        } else if (j.ring) {
            Ring ring;
            ring.make(j.plan, shared);
            ring.work(j.plan.steps);
            c.log("ring", ring.hash);
            VCHECK(j.ring->hash == ring.hash, "other-history", "thread ", i, ": the network has another history than alone");
            for (std::size_t k = 0; k < j.ring->pins.size(); k++)
                if (shared.empty() || k % 2 == 1) all.push_back(j.ring->pins[k]);
            j.ring->drop();
        }
        for (auto &p : j.made) all.push_back(p);
    }
    for (std::size_t a = 0; a < all.size(); a++)
        for (std::size_t b = 0; b < all.size(); b++) {
            bool eq = a == b;
            VCHECK((all[a] == all[b]) == eq && (all[a] != all[b]) == !eq, "pins-not-unique", "pins ", a, " and ", b, " of ", all.size(),
                   eq ? " are one, but differ" : " are the same");
            VCHECK((all[a] < all[b]) + (all[b] < all[a]) == !eq && (all[a] <= all[b]) == (eq || all[a] < all[b]) &&
                       (all[a] >= all[b]) == (eq || all[b] < all[a]) && (all[a] > all[b]) == (all[b] < all[a]),
                   "pins-not-ordered", "pins ", a, " and ", b, " are not in order");
        }
}
}  // namespace thr

int main(int argc, char** argv) {
    std::map<std::string, vsim::RunFn> p;
    vsim::alloc_no_balance();  // what threads share may well be kept for good
    p["C18"] = [](vsim::Ctx &c) { vsim::forked(c, thr::threads_run); };
    return vsim::worker_main(argc, argv, p);
}

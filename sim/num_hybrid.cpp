// C13: hybrid models in simulated networks. The continuous state handed to
// every callback is compared with the closed form solution from the previous
// discrete event on; events, inputs and outputs are accounted for one by one.
#include <algorithm>
#include "num.hpp"

namespace num {

enum LocK { L_BISECT, L_LINEAR, L_DISC, L_FAST, L_SPLINE, L_NULL };
static char const* const l_name[] = {"bisection", "linear", "discontinuous", "fast", "fast+spline", "null"};

struct World;

// What a callback throws
struct Boom {
    long id;
};

struct Hyb : Sys {
    World &w;
    int id;
    int solver, loc;
    double tol_l, stol, h_max;
    // Event functions: scale * dir * (thr - q[var]), or its sign. The scale may be negative.
    struct Arm {
        int var = 0;
        bool on = false;
        double thr = 0.0, dir = 1.0, scale = 1.0;
        bool jump = false;
    };
    std::vector<Arm> arms;
    double deadline;  // in terms of the clock, which is the first variable
    int zero_left = 3;
    std::vector<double> rates;  // of the blocks, before any change
    // Since the last discrete event
    double T0 = 0.0;
    std::vector<double> base;
    u64 ders0 = 0, kin0 = 0;
    std::vector<double> posted;  // the state postStep was last called with
    std::vector<bool> out_flags;
    std::vector<double> out_q;
    bool out_pending = false;  // output was computed for an event that has not happened yet
    std::vector<long> out_ids;
    bool called_event = false;   // a discrete callback in this transition
    int discrete = 0;
    double T_trans = 0.0;  // time of the last transition
    double planned = 0.0;  // when the next internal transition is due
    bool odd_steps = false;  // the longest step is no multiple of what the events are drawn from
    double arm_dt = 0.0;
    std::multiset<V> inbox, taken;
    adevs::pin_t in, out;

    Hyb(World &w, int id, std::vector<Block> const &b, std::vector<double> const &q0, int M);
    ~Hyb() override;
    static bool crossed(Arm const &a, double const* q) { return a.on && a.dir * (a.thr - q[a.var]) <= 0.0; }
    double z_of(Arm const &a, double const* q) const {
        if (!a.on) return a.scale;
        double d = a.dir * (a.thr - q[a.var]);
        if (a.jump) return a.scale * (d > 0.0 ? 1.0 : -1.0);
        return a.scale * d;
    }
    void fail(char const* where);
    void init(double* q) override {
        fail("init");
        Sys::init(q);
    }
    void der_func(double const* q, double* dq) override {
        if (solver != TRAP) fail("der_func");  // not through the C code of KINSOL
        Sys::der_func(q, dq);
    }
    void state_event_func(double const* q, double* z) override {
        vsim::ctx->spend();
        fail("state_event_func");
        for (std::size_t i = 0; i < arms.size(); i++) z[i] = z_of(arms[i], q);
    }
    double time_event_func(double const* q) override {
        vsim::ctx->spend();
        fail("time_event_func");
        if (deadline >= adevs_inf<double>()) return adevs_inf<double>();
        return std::max(0.0, deadline - q[0]);
    }
    void postTrialStep(double*) override { fail("postTrialStep"); }
    void postStep(double* q) override { fail("postStep"); posted.assign(q, q + numVars()); }
    void output_func(double const* q, bool const* ev, std::list<adevs::PinValue<V>> &yb) override;
    void internal_event(double* q, bool const* ev) override;
    void external_event(double* q, double e, std::list<adevs::PinValue<V>> const &xb) override;
    void confluent_event(double* q, bool const* ev, std::list<adevs::PinValue<V>> const &xb) override;

    // Oracles
    double allowed(double dt) const;
    void check_state(double const* q, char const* where, double slip);
    void check_events(double const* q, bool const* ev, char const* where);
    void check_quiet(double const* q, char const* where);
    void take(std::list<adevs::PinValue<V>> const &xb, char const* where);
    void event_output(double const* q, bool const* ev, char const* where);
    // What the model does
    void arm(Arm &a, double const* q);
    void act(double* q, bool const* ev);
    void settle(double const* q);
};

struct World {
    Ctx &c;
    double now = 0.0;
    long next_id = 1;
    struct Out {
        int from;
        double at;
        bool caused = false;  // the event that it belongs to happened
        int seen = 0;
    };
    std::map<long, Out> outs;
    int deleted = 0;
    long throw_in = 0;  // the n-th callback from now on throws
    long thrown = 0;
    std::vector<Hyb*> hs;
    explicit World(Ctx &c) : c(c) {}
};

Hyb::Hyb(World &w, int id, std::vector<Block> const &b, std::vector<double> const &q0, int M)
    : Sys(b, q0, M), w(w), id(id), arms((std::size_t)M), deadline(adevs_inf<double>()) {}
Hyb::~Hyb() { w.deleted++; }

void Hyb::fail(char const* where) {
    if (w.throw_in == 0 || --w.throw_in != 0) return;
    {
        vsim::AllocQuiet quiet;
        VNOTE("t=", w.now, " model ", id, ": ", where, " throws");
        w.c.fault("callback-throws");
        w.c.feature(where);
        w.c.log("throw", (u64)id);
        w.thrown = 1 + (long)w.c.below(1000);
    }
    throw Boom{w.thrown};
}

double Hyb::allowed(double dt) const {
    double mag = 1.0;
    for (double x : base) mag = std::max(mag, std::fabs(x));
    mag += dt;
    double L = rate(base.data());
    double a;
    if (solver == TRAP) {
        double n = (double)(kinsol_calls - kin0) + 2.0;
        a = n * (4e-5 + 0.3 * std::pow(h_max * L, 3.0)) * mag;
    } else {
        double n = (double)(ders - ders0) / (solver == RK ? 6.0 : 2.0) + 2.0;
        a = 2.0 * stol * n + 1e-12 * mag * n;
    }
    if (loc == L_SPLINE) a += std::pow(h_max * L, 4.0) / 100.0 * mag;
    for (auto &bl : blocks)
        if (bl.kind == Block::CHAIN) return a * std::pow(1.0 + bl.a * dt, 2.0);
    return a;
}

void Hyb::check_state(double const* q, char const* where, double slip) {
    double dt = w.now - T0;
    double eps = 1e-9 * (1.0 + w.now) + (solver == TRAP ? 1e-5 * (double)(kinsol_calls - kin0 + 1) : 0.0);
    double lag = dt - (q[0] - base[0]);
    VCHECK(lag <= slip + eps && lag >= -eps, "wrong-time", "model ", id, ": ", where, " at ", w.now, ", ", dt,
           " after the last discrete event, gets the state for ", q[0] - base[0], " after it");
    std::vector<double> want((std::size_t)numVars());
    exact(base.data(), q[0] - base[0], want.data());
    double a = allowed(dt);
    for (int i = 0; i < numVars(); i++)
        VCHECK(std::fabs(q[i] - want[(std::size_t)i]) <= a, "wrong-state", "model ", id, ": ", where, " at ", w.now,
               " gets ", q[i], " for variable ", i, ", which should be ", want[(std::size_t)i], " (allowed ", a, ")");
}

// An event was reported: do its flags agree with the state?
void Hyb::check_events(double const* q, bool const* ev, char const* where) {
    int M = numEvents();
    bool any = ev[M];
    double err = allowed(w.now - T0);
    for (int i = 0; i < M; i++) {
        auto &a = arms[(std::size_t)i];
        double z = z_of(a, q);
        VCHECK(ev[i] == crossed(a, q), "event-flags", "model ", id, ": ", where, " at ", w.now, ": state event ", i, " is ",
               ev[i] ? "set" : "not set", " but its function is ", z);
        if (!ev[i]) continue;
        any = true;
        // Not later than the tolerance allows
        double late = a.dir * (q[a.var] - a.thr);
        std::vector<double> dq((std::size_t)numVars());
        for (auto &b : blocks) b.der(q, dq.data());
        double speed = std::fabs(dq[(std::size_t)a.var]);
        double band = (loc == L_BISECT || loc == L_LINEAR) ? tol_l / std::fabs(a.scale) : 1.5 * tol_l * speed * std::exp(1.0);
        VCHECK(late <= band + 2.0 * err, "event-late", "model ", id, ": ", where, " at ", w.now, ": state event ", i,
               " is reported ", late, " beyond its threshold, allowed ", band + 2.0 * err);
    }
    bool due = q[0] >= deadline - 1e-9 * (1.0 + w.now);
    if (ev[M])
        VCHECK(due && deadline < adevs_inf<double>(), "event-flags", "model ", id, ": ", where, " at ", w.now,
               ": time event reported, but it is due at ", deadline, " on a clock of ", q[0]);
    else
        VCHECK(q[0] <= deadline + 1e-9 * (1.0 + w.now), "event-missed", "model ", id, ": ", where, " at ", w.now,
               ": the time event due at ", deadline, " did not happen, the clock is ", q[0]);
    // The step ended at the time event, and a state event is there as well
    if (!ev[M] && odd_steps && w.now == planned && w.now - T_trans > 1e-9 && h_max - (w.now - T_trans) > 1e-9 &&
        deadline < adevs_inf<double>()) {
        VCHECK(std::fabs(q[0] - deadline) > 1e-13 * (1.0 + w.now), "event-flags", "model ", id, ": ", where, " at ", w.now,
               ": the time event due now, at ", deadline, ", is not reported along with the state events");
        w.c.count("state-events-checked-for-time-event");
    } else if (ev[M] && odd_steps && w.now == planned) {
        for (int i = 0; i < M; i++)
            if (ev[i]) {
                w.c.feature("state-and-time-event");
                break;
            }
    }
    VCHECK(any, "event-flags", "model ", id, ": ", where, " at ", w.now, " without an event");
}

// No event was reported: is there none?
void Hyb::check_quiet(double const* q, char const* where) {
    for (std::size_t i = 0; i < arms.size(); i++) {
        if (loc == L_NULL || !arms[i].on) continue;
        VCHECK(!crossed(arms[i], q), "event-missed", "model ", id, ": ", where, " at ", w.now, ": variable ",
               arms[i].var, " is ", q[arms[i].var], ", beyond the threshold ", arms[i].thr,
               ", but the state event did not happen");
    }
    VCHECK(q[0] <= deadline + 1e-9 * (1.0 + w.now), "event-missed", "model ", id, ": ", where, " at ", w.now,
           ": the time event due at ", deadline, " did not happen, the clock is ", q[0]);
}

void Hyb::take(std::list<adevs::PinValue<V>> const &xb, char const* where) {
    for (auto &x : xb) {
        VCHECK(x.pin == in, "wrong-input", "model ", id, ": ", where, " gets a value on a foreign pin");
        taken.insert(x.value);
    }
    VCHECK(taken == inbox, "wrong-input", "model ", id, ": ", where, " at ", w.now, " gets ", xb.size(),
           " values, ", inbox.size(), " were delivered");
}

void Hyb::output_func(double const* q, bool const* ev, std::list<adevs::PinValue<V>> &yb) {
    auto &c = w.c;
    c.spend();
    fail("output_func");
    VNOTE("t=", w.now, " model ", id, " output, clock ", q[0]);
    check_state(q, "output_func", 2.0 * tol_l + (solver == TRAP ? 1e-2 : 1e-6));
    check_events(q, ev, "output_func");
    VCHECK(posted.size() == (std::size_t)numVars() && std::equal(posted.begin(), posted.end(), q), "stale-algebraic",
           "model ", id, ": output_func at ", w.now, " but postStep was not called for this state");
    VCHECK(!out_pending, "output-repeated", "model ", id, ": output computed twice for one event, at ", w.now);
    out_pending = true;
    out_flags.assign(ev, ev + numEvents() + 1);
    out_q.assign(q, q + numVars());
    vsim::AllocQuiet quiet;
    out_ids.clear();
    int values = c.chance(1, 2) ? 1 : c.range(0, 4);
    for (int k = 0; k < values; k++) {
        out_ids.push_back(w.next_id++);
        w.outs[out_ids.back()] = World::Out{id, w.now, false, 0};
        yb.push_back(adevs::PinValue<V>(out, out_ids.back()));
    }
    c.log("output", (u64)id, (u64)w.next_id, (u64)(w.now * 1e6));
}

// The event for which output was computed
void Hyb::event_output(double const* q, bool const* ev, char const* where) {
    VCHECK(out_pending, "output-missing", "model ", id, ": ", where, " at ", w.now, " without output before it");
    out_pending = false;
    VCHECK(std::equal(out_flags.begin(), out_flags.end(), ev), "event-flags", "model ", id, ": ", where, " at ", w.now,
           " has other flags than output_func");
    VCHECK(std::equal(out_q.begin(), out_q.end(), q), "wrong-state", "model ", id, ": ", where, " at ", w.now,
           " has another state than output_func");
    for (long o : out_ids) {
        w.outs[o].caused = true;
        VCHECK(w.outs[o].at == w.now, "output-time", "model ", id, ": output was computed at ", w.outs[o].at,
               " for an event at ", w.now);
    }
}

void Hyb::arm(Arm &a, double const* q) {
    auto &c = w.c;
    a.on = false;
    if (c.chance(1, 2)) a.scale = -a.scale;
    if (c.chance(1, 6)) return;
    double dt = 0.125 * (double)c.range(1, 16);
    if (c.chance(1, 3)) dt *= 0.777;
    std::vector<double> at((std::size_t)numVars());
    exact(q, dt, at.data());
    a.thr = at[(std::size_t)a.var];
    double d = a.thr - q[a.var];
    if (std::fabs(d) < 1e-2) return;
    a.dir = d > 0.0 ? 1.0 : -1.0;
    a.on = true;
    arm_dt = dt;
}

// A discrete change
void Hyb::act(double* q, bool const* ev) {
    auto &c = w.c;
    int M = numEvents();
    arm_dt = 0.0;
    // Jump of a part of the state
    if (c.chance(1, 4)) {
        auto &b = blocks[c.below((u32)blocks.size())];
        if (b.at != 0) {
            for (int i = 0; i < b.n; i++) {
                double x = draw_state(c, b, i);
                if (b.kind == Block::CHAIN) x = std::fabs(x);
                q[b.at + i] = x;
            }
            for (auto &a : arms)
                if (a.var >= b.at && a.var < b.at + b.n) arm(a, q);
        }
    }
    // Another regime: the derivative changes while the state stays
    if (c.chance(1, 4)) {
        std::size_t k = c.below((u32)blocks.size());
        auto &b = blocks[k];
        if (b.at != 0) {
            static double const gears[] = {1.0, 0.5, 0.25};
            b.a = rates[k] * gears[c.below(3)];
            if (b.kind == Block::RAMP && c.chance(1, 2)) b.a = -b.a;
            c.feature("regime-change");
            for (auto &a : arms)
                if (a.var >= b.at && a.var < b.at + b.n) arm(a, q);
        }
    }
    for (int i = 0; i < M; i++) {
        auto &a = arms[(std::size_t)i];
        if (ev == nullptr ? (!a.on && c.chance(1, 3)) : (ev[i] || (!a.on && c.chance(1, 2)))) arm(a, q);
    }
    bool chained = q[numVars() - 1] > 40.0;  // chains grow: start again
    if (chained)
        for (auto &b : blocks)
            if (b.kind == Block::CHAIN) {
                for (int i = 0; i < b.n; i++) q[b.at + i] = 0.5;
                for (auto &a : arms)
                    if (a.var >= b.at && a.var < b.at + b.n) arm(a, q);
            }
    if (arm_dt > 0.0 && c.chance(1, 3)) {
        zero_left = 3;
        deadline = q[0] + arm_dt;  // at the same time as a state event
    } else if ((ev != nullptr && ev[M]) || (deadline >= adevs_inf<double>() && c.chance(1, 3)) || c.chance(1, 8)) {
        switch (c.below(5)) {
            case 0: deadline = adevs_inf<double>(); break;
            case 1:
                if (zero_left > 0) {
                    zero_left--;
                    deadline = q[0];
                    c.feature("zero-delay-event");
                } else {
                    deadline = q[0] + 0.5;
                }
                break;
            default:
                zero_left = 3;
                deadline = q[0] + 0.125 * (double)c.range(1, 16);
        }
    }
}

void Hyb::settle(double const* q) {
    base.assign(q, q + numVars());
    T0 = w.now;
    ders0 = ders;
    kin0 = kinsol_calls;
    discrete++;
    called_event = true;
    w.c.state(vsim::mix((u64)solver, (u64)loc, (u64)discrete, (u64)arms.size()));
}

void Hyb::internal_event(double* q, bool const* ev) {
    vsim::AllocQuiet quiet;
    auto &c = w.c;
    c.spend();
    fail("internal_event");
    VNOTE("t=", w.now, " model ", id, " internal event, clock ", q[0]);
    c.log("internal", (u64)id, (u64)(w.now * 1e6));
    VCHECK(!called_event, "event-repeated", "model ", id, ": two discrete changes in one transition at ", w.now);
    VCHECK(inbox.empty(), "wrong-input", "model ", id, ": internal event at ", w.now, " though input was delivered");
    check_state(q, "internal_event", 0.0);
    check_events(q, ev, "internal_event");
    event_output(q, ev, "internal_event");
    act(q, ev);
    settle(q);
    c.count("internal-events");
}

void Hyb::external_event(double* q, double e, std::list<adevs::PinValue<V>> const &xb) {
    vsim::AllocQuiet quiet;
    auto &c = w.c;
    c.spend();
    fail("external_event");
    VNOTE("t=", w.now, " model ", id, " external event, e=", e, " clock ", q[0]);
    c.log("external", (u64)id, (u64)(w.now * 1e6), xb.size());
    VCHECK(!called_event, "event-repeated", "model ", id, ": two discrete changes in one transition at ", w.now);
    VCHECK(std::fabs(e - (w.now - T0)) <= 1e-9 * (1.0 + w.now), "elapsed-time", "model ", id, ": external_event at ",
           w.now, " gets an elapsed time of ", e, ", the last discrete event was at ", T0);
    check_state(q, "external_event", 0.0);
    check_quiet(q, "external_event");
    VCHECK(std::equal(posted.begin(), posted.end(), q), "stale-algebraic", "model ", id, ": external_event at ", w.now,
           " but postStep was not called for this state");
    VCHECK(!out_pending, "output-repeated", "model ", id, ": output was computed for an external event, at ", w.now);
    take(xb, "external_event");
    if (c.chance(1, 2)) act(q, nullptr);
    settle(q);
    c.count("external-events");
}

void Hyb::confluent_event(double* q, bool const* ev, std::list<adevs::PinValue<V>> const &xb) {
    vsim::AllocQuiet quiet;
    auto &c = w.c;
    c.spend();
    fail("confluent_event");
    VNOTE("t=", w.now, " model ", id, " confluent event, clock ", q[0]);
    c.log("confluent", (u64)id, (u64)(w.now * 1e6), xb.size());
    VCHECK(!called_event, "event-repeated", "model ", id, ": two discrete changes in one transition at ", w.now);
    // An event found when the input arrives counts as simultaneous, within the tolerance of the event locator
    check_state(q, "confluent_event", 2.0 * tol_l + (solver == TRAP ? 1e-2 : 1e-6));
    check_events(q, ev, "confluent_event");
    event_output(q, ev, "confluent_event");
    take(xb, "confluent_event");
    act(q, ev);
    settle(q);
    c.count("confluent-events");
}

struct Collector : adevs::Atomic<V> {
    World &w;
    explicit Collector(World &w) : w(w) {}
    double ta() override { return adevs_inf<double>(); }
    void delta_int() override {}
    void output_func(std::list<adevs::PinValue<V>> &) override {}
    void delta_ext(double, std::list<adevs::PinValue<V>> const &xb) override {
        for (auto &x : xb) {
            auto o = w.outs.find(x.value);
            VCHECK(o != w.outs.end(), "stray-output", "value ", x.value, " arrived that no model sent");
            VCHECK(++o->second.seen == 1, "output-repeated", "output ", x.value, " of model ", o->second.from,
                   " arrived again at ", w.now);
            VCHECK(w.now == o->second.at, "output-time", "output ", x.value, " of model ", o->second.from, " at ",
                   o->second.at, " arrived at ", w.now);
        }
    }
    void delta_conf(std::list<adevs::PinValue<V>> const &xb) override { delta_ext(0.0, xb); }
};

struct Watch : adevs::EventListener<V> {
    World &w;
    std::map<adevs::Atomic<V>*, int> who;
    std::vector<adevs::Hybrid<V>*> hy;
    explicit Watch(World &w) : w(w) {}
    void outputEvent(adevs::Atomic<V> &, adevs::PinValue<V> &, double) override {}
    void inputEvent(adevs::Atomic<V> &m, adevs::PinValue<V> &v, double) override {
        vsim::AllocQuiet quiet;
        auto i = who.find(&m);
        if (i != who.end()) w.hs[(std::size_t)i->second]->inbox.insert(v.value);
    }
    void stateChange(adevs::Atomic<V> &m, double) override {
        vsim::AllocQuiet quiet;
        auto i = who.find(&m);
        if (i == who.end()) return;
        auto &h = *w.hs[(std::size_t)i->second];
        auto *hyb = hy[(std::size_t)i->second];
        VCHECK(h.taken == h.inbox, "input-lost", "model ", h.id, ": ", h.inbox.size(), " inputs were delivered at ", w.now,
               " but ", h.taken.size(), " reached the model");
        if (!h.called_event) {
            h.check_state(hyb->getState(), "the state", 0.0);
            h.check_quiet(hyb->getState(), "the state");
        } else {
            VCHECK(std::equal(h.base.begin(), h.base.end(), hyb->getState()), "wrong-state", "model ", h.id,
                   ": the state after an event at ", w.now, " is not what the event left");
            VCHECK(hyb->eventHappened(), "event-happened", "model ", h.id, ": no event reported for the one at ", w.now);
        }
        for (int k = 0; k < h.numVars(); k++)
            VCHECK(hyb->getState(k) == hyb->getState()[k], "wrong-state", "getState(k) and getState()[k] differ");
        h.T_trans = w.now;
        h.planned = w.now + hyb->ta();
        h.called_event = false;
        h.inbox.clear();
        h.taken.clear();
    }
};

void hybrid_run(Ctx &c) {
    kinsol_fail_in(0);
    kinsol_calls = kinsol_failed = 0;
    vsim::alloc_fill_seed(c.below(256));
    vsim::alloc_epoch_begin();
    vsim::Pool::reset(c.below(1 << 16), 16);
    c.budget = 1500000;
    World w(c);
    int n = c.range(1, 3);
    bool wild = c.chance(1, 2);
    // A callback fails at some point, now and then already when the models are made
    if (c.chance(1, 5)) w.throw_in = c.chance(1, 4) ? c.range(1, 12) : c.range(1, 1 << c.range(5, 13));
    {
        std::vector<std::shared_ptr<adevs::Hybrid<V>>> hy;
        auto col = std::shared_ptr<Collector>(new Placed<Collector>(w));
        auto watch = std::make_shared<Watch>(w);
        bool failed_start = false;
        for (int i = 0; i < n; i++) {
            std::vector<Block> b;
            std::vector<double> q0;
            draw_blocks(c, 3, true, b, q0);
            for (auto &x : b) {
                if (x.kind == Block::QUAD) x.kind = Block::DECAY;
                if (x.kind == Block::CHAIN)
                    for (int k = 0; k < 3; k++) q0[(std::size_t)(x.at + k)] = std::fabs(q0[(std::size_t)(x.at + k)]);
            }
            q0[0] = 0.125 * (double)c.range(0, 8);
            std::vector<int> mono;
            for (auto &x : b)
                if (x.kind != Block::OSC)
                    for (int k = 0; k < x.n; k++) mono.push_back(x.at + k);
            int loc = c.range(0, 5);
            int M = loc == L_NULL ? 0 : c.range(0, c.chance(1, 15) ? 12 : 3);
            vsim::AllocLoud loud;
            auto* s = new Hyb(w, i, b, q0, M);
            vsim::AllocQuiet quiet;
            s->loc = loc;
            s->has_jac = c.chance(1, 2);
            s->solver = c.range(0, 2);
            s->tol_l = std::pow(10.0, -c.range(2, 6));
            double L = s->rate(q0.data());
            s->h_max = std::min((c.chance(1, 2) ? 0.5 : 0.1) / L, c.chance(1, 3) ? 4.0 : 1.0);
            if (s->solver == TRAP) s->h_max = std::min(s->h_max, 0.05 / L);
            if (loc == L_SPLINE) s->h_max = std::min(s->h_max, 0.2 / L);
            if (s->solver != TRAP && c.chance(1, 2)) {
                s->h_max *= 1.0 - 0.00037 * (1.0 + 0.01 * (double)c.below(100));
                s->odd_steps = true;
            }
            s->stol = s->solver == RK ? 1e-9 : 1e-5;
            // The shortcut classes use one tolerance for everything
            bool shortcut = loc == L_DISC && s->solver != CE && c.chance(1, 2);
            if (shortcut) {
                s->tol_l = std::min(s->tol_l, 1e-4);
                s->stol = s->tol_l;
                c.feature("shortcut-class");
            }
            s->base = q0;
            for (auto &x : b) s->rates.push_back(x.a);
            for (auto &a : s->arms) {
                a.var = mono[c.below((u32)mono.size())];
                static double const scales[] = {1.0, -1.0, 10.0, -0.1};
                a.scale = scales[c.below(4)];
                a.jump = (loc == L_DISC || loc == L_FAST || loc == L_SPLINE) && c.chance(1, 3);
                s->arm(a, q0.data());
            }
            if (c.chance(1, 2)) s->deadline = q0[0] + 0.125 * (double)c.range(0, 12);
            w.hs.push_back(s);
            VNOTE("model ", i, ": ", solver_name(s->solver), " tolerance ", s->stol, " h_max ", s->h_max, ", ", l_name[loc],
                  " locator, tolerance ", s->tol_l, ", ", M, " state events, ", q0.size(), " variables");
            adevs::ode_solver<V>* sol = nullptr;
            adevs::event_locator<V>* l = nullptr;
            std::shared_ptr<adevs::Hybrid<V>> h;
            // The shortcut classes make parts of their own, for which nobody could care if they failed here
            long keep = w.throw_in;
            if (shortcut || s->solver == TRAP) w.throw_in = 0;
            try {
                vsim::AllocLoud loud2;
                if (shortcut && s->solver == RK) {
                    h = std::shared_ptr<adevs::Hybrid<V>>(new Placed<adevs::ExplicitHybrid<V>>(s, s->stol, s->h_max));
                } else if (shortcut) {
                    h = std::shared_ptr<adevs::Hybrid<V>>(new Placed<adevs::ImplicitHybrid<V>>(s, s->stol, s->h_max));
                } else {
                    sol = make_solver(s->solver, s, s->stol, s->h_max);
                    switch (loc) {
                        case L_BISECT: l = new adevs::bisection_event_locator<V>(s, s->tol_l); break;
                        case L_LINEAR: l = new adevs::linear_event_locator<V>(s, s->tol_l); break;
                        case L_DISC: l = new adevs::discontinuous_event_locator<V>(s, s->tol_l); break;
                        case L_FAST: l = new adevs::fast_event_locator<V>(s, s->tol_l); break;
                        case L_SPLINE: l = new adevs::fast_event_locator<V>(s, s->tol_l, true); break;
                        default: l = new adevs::null_event_locator<V>(); break;
                    }
                    h = std::shared_ptr<adevs::Hybrid<V>>(new Placed<adevs::Hybrid<V>>(s, sol, l));
                }
            } catch (Boom const &b) {
                // Nothing was adopted
                VCHECK(b.id == w.thrown, "exception-changed", "exception ", b.id, " arrived in place of ", w.thrown);
                vsim::AllocLoud loud2;
                delete l;
                delete sol;
                delete s;
                failed_start = true;
            }
            if (failed_start) break;
            if (shortcut || s->solver == TRAP) w.throw_in = keep;
            VCHECK(h->getSystem() == s, "wrong-system", "getSystem()");
            VCHECK(std::equal(q0.begin(), q0.end(), h->getState()), "wrong-state", "model ", i,
                   ": the initial state is not the one set by init");
            s->planned = h->ta();
            watch->who[h.get()] = i;
            watch->hy.push_back(h.get());
            hy.push_back(h);
        }
        auto finish = [&](std::unique_ptr<adevs::Simulator<V>> sim, std::shared_ptr<adevs::Graph<V>> g) {
            // Everything adopted goes with the models
            w.throw_in = 0;
            vsim::AllocLoud loud;
            sim.reset();
            g.reset();
            hy.clear();
            VCHECK(w.deleted == (int)w.hs.size(), "not-released", (int)w.hs.size() - w.deleted, " of ", w.hs.size(),
                   " systems were not released with their models");
        };
        if (failed_start) {
            finish(nullptr, nullptr);
            n = 0;
        }
        auto g = std::make_shared<adevs::Graph<V>>();
        adevs::pin_t all;
        g->add_atomic(col);
        for (int i = 0; i < n; i++) {
            g->add_atomic(hy[(std::size_t)i]);
            g->connect(w.hs[(std::size_t)i]->out, col);
            g->connect(w.hs[(std::size_t)i]->in, hy[(std::size_t)i]);
            g->connect(all, w.hs[(std::size_t)i]->in);
            for (int j = 0; j < n; j++)
                if (j != i && c.chance(1, 4)) g->connect(w.hs[(std::size_t)i]->out, w.hs[(std::size_t)j]->in);
        }
        std::unique_ptr<adevs::Simulator<V>> sim(new adevs::Simulator<V>(g));
        sim->addEventListener(watch);
        int cycles = failed_start ? 0 : c.range(4, c.thorough ? 160 : 70);
        V injected = -1;
        double last = 0.0;
        for (int k = 0; k < cycles; k++) {
            double next = sim->nextEventTime();
            VCHECK(next >= last, "time-backwards", "next event at ", next, " after ", last);
            double t = next;
            if (c.chance(wild ? 1 : 0, 3)) {
                double gap = next - last;
                switch (c.below(6)) {
                    case 0: t = next; c.fault("input-at-event-time"); break;
                    case 1: t = last; c.fault("input-repeated-at-same-time"); break;
                    case 2: {  // just before
                        double back = w.hs[c.below((u32)n)]->tol_l * (double)c.range(1, 12) / 8.0;
                        t = std::max(last, next - back);
                        c.fault("input-just-before-event");
                        break;
                    }
                    case 3: t = std::max(last, std::nextafter(next, 0.0)); c.fault("input-just-before-event"); break;
                    default: t = last + gap * (double)c.range(0, 15) / 16.0; c.fault("input-between-steps"); break;
                }
                int m = c.range(1, 2);
                for (int j = 0; j < m; j++) {
                    adevs::PinValue<V> x(c.chance(1, 4) ? all : w.hs[c.below((u32)n)]->in, injected--);
                    sim->injectInput(x);
                }
                if (t < next) sim->setNextTime(t);
                VNOTE("input at ", t);
            }
            if (c.chance(1, 12)) {
                kinsol_fail_in(c.range(1, 3));
            }
            w.now = t;
            double r = t;
            bool failed = false;
            try {
                r = sim->execNextEvent();
            } catch (Boom const &b) {
                failed = true;
                VCHECK(w.thrown != 0 && b.id == w.thrown, "exception-changed", "exception ", b.id, " arrived in place of ", w.thrown);
            }
            kinsol_fail_in(0);
            VCHECK(failed == (w.thrown != 0), "exception-lost", "a callback threw at ", t, " but nothing arrived");
            if (failed) {
                c.nontrivial = true;
                break;
            }
            VCHECK(r == t, "cycle-time", "the cycle at ", t, " returned ", r);
            // Outputs arrive before time goes on
            double after = sim->nextEventTime();
            for (auto &o : w.outs) {
                VCHECK(o.second.caused, "output-without-event", "model ", o.second.from, " produced output ", o.first, " at ",
                       o.second.at, " without an event");
                if (after > o.second.at)
                    VCHECK(o.second.seen == 1, "output-lost", "output ", o.first, " of model ", o.second.from, " at ",
                           o.second.at, " never arrived");
            }
            while (!w.outs.empty() && w.outs.begin()->second.seen == 1) w.outs.erase(w.outs.begin());
            last = t;
            c.nontrivial = true;
        }
        c.sim_time += last;
        for (int i = 0; i < n; i++) c.count("discrete-events", (u64)w.hs[(std::size_t)i]->discrete);
        finish(std::move(sim), std::move(g));
    }
    auto st = vsim::alloc_epoch_stats();
    VCHECK(st.live == 0 && st.c_live == 0, "memory-leak", st.live, " allocations (", st.live_bytes, " bytes) and ", st.c_live, " blocks of C libraries were never released");
}

}  // namespace num

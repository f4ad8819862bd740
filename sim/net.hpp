// A random network of DEVS models with scripted behaviour, the reference
// simulator for it, and the type-erased interface to the real simulator.
#ifndef VSIM_NET_HPP
#define VSIM_NET_HPP
#include <algorithm>
#include <climits>
#include <exception>
#include <list>
#include <memory>
#include <set>
#include "core.hpp"

namespace net {
using vsim::cat;
using vsim::ctx;
using vsim::mix;
using vsim::u32;
using vsim::u64;

// ---- Reference time: ticks and, for super dense time, a step count ---------
struct RT {
    long t = 0;
    int k = 0;
    RT() = default;
    RT(long t, int k = 0) : t(t), k(k) {}
    static RT infinity() { return RT(LONG_MAX, 0); }
    bool inf() const { return t == LONG_MAX; }
    bool operator==(RT const &o) const { return t == o.t && (k == o.k || inf()); }
    bool operator!=(RT const &o) const { return !(*this == o); }
    bool operator<(RT const &o) const {
        if (inf()) return false;
        if (o.inf()) return true;
        return t < o.t || (t == o.t && k < o.k);
    }
    u64 hash() const { return inf() ? 0x1234567ull : mix((u64)t, (u64)k + 77); }
};
inline RT rt_add(RT a, RT d) {
    if (a.inf() || d.inf()) return RT::infinity();
    if (d.t == 0) return RT(a.t, a.k + d.k);
    return RT(a.t + d.t, d.k);
}
inline RT rt_sub(RT a, RT b) {  // length of [b,a]
    if (a.inf()) return RT::infinity();
    if (a.t == b.t) return RT(0, a.k - b.k);
    return RT(a.t - b.t, a.k);
}
inline std::ostream &operator<<(std::ostream &o, RT const &r) {
    if (r.inf()) return o << "inf";
    o << r.t;
    if (r.k != 0) o << "." << r.k;
    return o;
}

using Bag = std::vector<std::pair<int, long>>;  // (pin, value), sorted
inline u64 bag_hash(Bag const &b) {
    u64 h = 17;
    for (auto &x : b) h = mix(h, (u64)x.first, (u64)x.second);
    return h;
}
inline std::string bag_str(Bag const &b) {
    std::string s = "{";
    for (auto &x : b) s += cat(s.size() > 1 ? " " : "", "p", x.first, "=", x.second);
    return s + "}";
}

enum Kind { K_INT = 0, K_EXT = 1, K_CONF = 2 };
inline char const* kind_str(int k) { return k == K_INT ? "int" : (k == K_EXT ? "ext" : "conf"); }

// The length of a tick, relative to the usual one: a power of two
double &time_scale();

// ---- Model descriptions -----------------------------------------------------
struct MCfg {
    bool mealy = false;
    int cut = 0;          // Mealy: listens to pins < cut, writes pins >= cut
    u64 s0 = 0;
    int ta_zero = 0;      // percent
    int ta_inf = 0;       // percent
    int ta_max = 8;       // ticks
    int out_pct = 70;     // percent of chances to write on a pin
    bool always_out = false;
    bool loops = false;   // Mealy models only: there is a way to a loop of them
    int op_pct = 0;       // percent of transitions that change the structure
    int neg_at = -1;      // the time advance is negative after this many transitions
    int boom_at = -1;     // throw from the transition with this number ...
    int boom_where = 0;   // ... 0: delta, 1: output_func (Moore only)
    std::vector<int> opins;
};

// ---- Structure changes ------------------------------------------------------
enum OpType { ADD, REM, RPIN, CPP, DPP, CPA, DPA, ADDC, REMC };
struct GOp {
    OpType type = ADD;
    int c = -1;  // coupled model that is edited; -1 for the graph
    int p = -1, q = -1;
    int m = -1;
    int c2 = -1;
};
inline std::string op_str(GOp const &o) {
    static char const* n[] = {"add", "remove", "remove_pin", "connect", "disconnect",
                              "connect", "disconnect", "add_coupled", "remove_coupled"};
    std::string s = n[o.type];
    if (o.c >= 0) s = cat("C", o.c, ".", s);
    if (o.p >= 0) s += cat(" p", o.p);
    if (o.q >= 0) s += cat(" p", o.q);
    if (o.m >= 0) s += cat(" m", o.m);
    if (o.c2 >= 0) s += cat(" C", o.c2);
    return s;
}

// The structure as the documentation describes it.
struct RefStruct {
    bool coupled = false;
    // Graph: instance counts
    std::map<int, int> atoms;
    std::map<std::pair<int, int>, int> pa, pp;  // (pin,model), (pin,pin)
    // Coupled: sets in a hierarchy whose root is node 0
    struct Node {
        std::set<int> atoms, subs;
        std::set<std::pair<int, int>> pa, pp;
    };
    std::vector<Node> nodes;
    // Flattened view, rebuilt on demand
    std::set<int> present;
    std::map<int, std::vector<int>> to_models, to_pins;

    void flatten();
    void apply(GOp const &o);
    bool has(int m) const { return present.count(m) != 0; }
    void route(int pin, std::vector<std::pair<int, int>> &out) const {  // (last pin, model)
        auto i = to_models.find(pin);
        if (i != to_models.end())
            for (int m : i->second) out.emplace_back(pin, m);
        auto j = to_pins.find(pin);
        if (j != to_pins.end())
            for (int q : j->second) route(q, out);
    }
    u64 hash() const {
        u64 h = 5;
        for (int m : present) h = mix(h, (u64)m);
        for (auto &x : to_models)
            for (int m : x.second) h = mix(h, (u64)x.first, (u64)m);
        for (auto &x : to_pins)
            for (int m : x.second) h = mix(h, (u64)x.first, (u64)m + 100000);
        return h;
    }
    // Number of attached occurrences of a coupled node
    bool attached(int c) const;
    bool reaches(int from, int to) const {  // in the coupled hierarchy
        if (from == to) return true;
        for (int s : nodes[(std::size_t)from].subs)
            if (reaches(s, to)) return true;
        return false;
    }
    int parents(int c) const {
        int n = 0;
        for (auto &x : nodes) n += (int)x.subs.count(c);
        return n;
    }
};

// ---- Observations -----------------------------------------------------------
enum EvType { E_OUTCALL, E_TRANS, E_LOUT, E_LIN, E_LST, E_OP };
struct Ev {
    EvType type = E_TRANS;
    int model = -1;
    int kind = 0;      // transitions
    RT t;              // elapsed time of a transition, time of a notification
    Bag bag;           // transitions
    int pin = -1;      // notifications
    long val = 0;
    int listener = -1;
    GOp op;
};
std::string ev_str(Ev const &e);

struct Boom {  // thrown by scripted models (or listeners: model < 0)
    int model;
    u64 tag;
};

struct IReal;

// A scenario and the world its scripted models live in.
struct World {
    // -- scenario --
    bool sd = false;              // super dense time
    int pins = 0;
    std::vector<MCfg> cfg;        // the models, present or not
    bool coupled = false;
    int nodes = 0;                // coupled models
    bool multi_parent = false;
    bool atomic_only = false;     // Simulator(Atomic)
    std::vector<GOp> initial;
    int elsewhere = 0;            // 1: models have been in another simulator before, 2: removal of models of another one
    int listeners = 0;
    u64 place_seed = 1;           // order of addresses and pins
    int op_mask = 0xffff;         // allowed structure changes
    bool drop_k = false;          // super dense time seen as plain time
    int lboom_at = -1;            // a listener throws at its n-th notification
    IReal* pins_from = nullptr;   // use the pins of another simulation
    std::function<void()> pause;  // called in callbacks: others may run meanwhile

    // -- run state shared with the scripted models --
    IReal* real = nullptr;
    std::vector<Ev> obs;          // events of the API call in progress
    RefStruct pview;              // structure with all queued changes applied
    std::vector<GOp> queued;      // changes requested since they were last applied
    std::vector<int> destroyed;   // models destroyed so far
    std::vector<char> gone;       // models that the harness has let go
    int notified = 0;
    bool recording = true;

    // Behaviour of the models: pure functions of the state
    RT ta_of(int m, u64 s, int n) const;
    bool neg_ta(int m, int n) const { return cfg[(std::size_t)m].neg_at >= 0 && n >= cfg[(std::size_t)m].neg_at; }
    bool boom(int m, int n, int where) const {
        auto &c = cfg[(std::size_t)m];
        return c.boom_at >= 0 && n >= c.boom_at && c.boom_where == where;
    }
    u64 next_state(int m, u64 s, int kind, RT e, Bag const &b) const {
        return mix(mix(s, (u64)m, (u64)kind), e.hash(), bag_hash(b));
    }
    // kind: as for transitions. Moore models are only asked with K_INT.
    void outputs_of(int m, u64 s, int kind, RT e, Bag const &b, Bag &out) const;
    // The scripted structure change of a model in state s, if any
    bool scripted_op(int m, u64 s, GOp &op) const;
    bool is_gone(int m) const { return !gone.empty() && gone[(std::size_t)m] != 0; }
    bool random_op(std::function<u32(u32)> draw, GOp &op) const;
    bool valid_pa(int p, int m) const {
        return !cfg[(std::size_t)m].mealy || p < cfg[(std::size_t)m].cut;
    }
    bool long_run = false;         // for many cycles
    bool random_op1(std::function<u32(u32)> &draw, GOp &op) const;
    void request(GOp const &op);   // issue the change and note it
};

// ---- The real simulator, types erased ---------------------------------------
struct IReal {
    virtual ~IReal() {}
    virtual void* pin_store() = 0;         // its std::vector<adevs::pin_t>
    virtual void build() = 0;              // models, pins, structure
    virtual void start() = 0;              // the simulator
    virtual void add_listener(int i) = 0;
    virtual RT next() = 0;
    virtual RT exec() = 0;
    virtual void compute_output() = 0;
    virtual RT compute_state() = 0;
    virtual void set_next(RT t) = 0;
    virtual void inject(int pin, long val) = 0;
    virtual void clear_injected() = 0;
    virtual void op(GOp const &o) = 0;     // perform on the graph or coupled model
    virtual void drop_model(int m) = 0;    // forget the harness's own reference
    virtual void stop(bool later) = 0;     // destroy the simulator alone, now or when the next one is there
    virtual void drop_sim(int order = 0) = 0;  // destroy the simulator and structure
    virtual bool same_model(int m, void* who) = 0;
    virtual char const* time_type() = 0;
    // Instances the graph holds right now (provisional changes excluded)
    virtual std::set<int> members() = 0;
    virtual std::vector<std::pair<int, int>> route(int pin) = 0;
    virtual void set_provisional(bool p) = 0;
    virtual std::size_t pending() = 0;
    virtual void commit(int n) = 0;        // perform the first n pending changes
    virtual std::vector<GOp> pending_ops() = 0;
};
IReal* make_real(int inst, World* w);  // by number of the type combination
bool inst_is_sd(int inst);
constexpr int n_inst = 10;

// ---- The reference simulator ------------------------------------------------
struct Ref {
    World* w;
    RefStruct g;
    std::vector<u64> s;
    std::vector<int> n;  // transitions made
    std::vector<RT> tL, tN;
    RT tNext;
    Bag injected;

    // Result of the last output calculation
    std::vector<Bag> bag, out;
    std::vector<char> imm;
    std::vector<int> outcalls;

    // Result of the last state calculation
    std::vector<Ev> trans;
    std::set<int> neg;     // models whose new time advance is negative
    std::set<int> booms;   // models that throw

    explicit Ref(World* w) : w(w) {}
    void init();
    void restart();        // a new simulator for the models as they are
    void compute_output();
    // Apply transitions and the queued changes; returns the current time.
    RT compute_state(std::vector<GOp> const &ops);
    RT min_tN() const;
    void schedule(int m, RT t);
    RT eps() const { return w->sd ? RT(0, 1) : RT(0, 0); }
};

}  // namespace net
#endif

// Checks over networks that need more than one simulation in lock step.
#include "net_gen.hpp"
#include "adevs/exception.h"

namespace net {
using vsim::Ctx;
using vsim::Pool;

// ---- C02: the history does not depend on anything but the model ---------------
static void reorder(Ctx &c, World &w) {
    std::vector<GOp> a, b;
    for (auto &o : w.initial) (o.type == ADD ? a : b).push_back(o);
    for (auto* v : {&a, &b})
        for (std::size_t i = v->size(); i > 1; i--) std::swap((*v)[i - 1], (*v)[c.below((u32)i)]);
    w.initial = a;
    w.initial.insert(w.initial.end(), b.begin(), b.end());
}

static void compare_histories(Ctx &c, std::vector<std::string> const &a, std::vector<std::string> const &b,
                              std::string const &what) {
    for (std::size_t i = 0; i < std::max(a.size(), b.size()); i++) {
        std::string x = i < a.size() ? a[i] : "(end)", y = i < b.size() ? b[i] : "(end)";
        if (x != y)
            c.violate("history-differs", cat("with ", what, " the history differs at call ", i, ": first [",
                                             x.substr(0, 400), "] then [", y.substr(0, 400), "]"));
    }
}

void determinism_run(Ctx &c) {
    Opt o;
    o.mealy = c.chance(1, 2);
    o.dyn = c.chance(1, 2);
    o.env_dyn = c.chance(1, 4);
    o.single_writer = true;
    o.coupled = c.chance(1, 3);
    o.multi_parent = true;
    o.inject = c.chance(1, 2);
    o.split = true;
    o.retract = c.chance(1, 3);
    o.restart = c.chance(1, 4);
    o.listeners = true;
    o.max_steps = 25;
    o.no_reset = true;
    o.grow = true;
    std::vector<u32> choices;
    std::vector<std::string> first;
    World w0;
    int inst;
    {
        Pool::fill = 0xA5;
        vsim::alloc_fill_seed(0xA5);
        Duo d(c, o);
        d.check = false;
        d.generate();
        w0 = d.w;
        inst = d.inst;
        d.w.place_seed = c.chance(1, 2) ? 0 : w0.place_seed;
        Pool::reset(d.w.place_seed, 256 + 2 * (int)d.w.cfg.size());
        d.history = &first;
        c.tape.keep(&choices);
        d.start();
        d.run();
        c.tape.keep(nullptr);
        d.real.reset();
    }
    int reruns = c.range(1, 3);
    for (int r = 0; r < reruns; r++) {
        Duo d(c, o);
        d.check = false;
        d.w = w0;
        d.inst = inst;
        d.w.place_seed = 1 + c.below(1 << 20);
        std::string what = "another placement in memory";
        c.fault("placement-permuted");
        if (c.chance(1, 2)) {
            reorder(c, d.w);
            c.fault("creation-order-permuted");
            what += ", another order of creation";
        }
        unsigned fill = c.below(256);
        Pool::fill = (unsigned char)fill;
        vsim::alloc_fill_seed(fill);
        c.fault("fresh-memory-pattern");
        Pool::reset(d.w.place_seed, 256 + 2 * (int)d.w.cfg.size());
        // Another simulation goes on at the same time
        std::unique_ptr<Duo> noise;
        if (c.chance(1, 2)) {
            Opt n;
            n.no_reset = true;
            n.mealy = c.chance(1, 2);
            n.dyn = c.chance(1, 2);
            n.split = c.chance(1, 2);
            n.inject = c.chance(1, 2);
            n.max_models = 5;
            if (c.chance(2, 3)) n.force_inst = d.inst;  // shares all that is static in the templates
            noise.reset(new Duo(c, n));
            noise->generate();
            noise->start();
            what += ", another simulation between the steps";
            d.between = [&]() {
                auto e = c.tape.suspend();
                int k = c.range(0, 2);
                for (int i = 0; i < k; i++) {
                    c.fault("interleaved-simulator-step");
                    if (!noise->step()) break;
                }
                c.tape.resume(e);
            };
            if (c.chance(1, 2)) {
                // Also in the middle of things, or within the callbacks of
                // models, as if they were simulated for their sake
                int every = c.range(2, 20);
                what += " and within them";
                bool busy = false;
                d.w.pause = [&c, &noise, every, busy]() mutable {
                    if (busy) return;
                    busy = true;
                    auto e = c.tape.suspend();
                    if (c.below((u32)every) == 0) {
                        c.fault("nested-simulator-step");
                        noise->step();
                    }
                    c.tape.resume(e);
                    busy = false;
                };
            }
            if (c.chance(1, 2)) {
                d.w.pins_from = noise->real.get();
                what += ", with the same pins";
                c.fault("pins-shared");
            }
        }
        VNOTE("---- again: ", what);
        std::vector<std::string> again;
        d.history = &again;
        c.tape.echo(&choices);
        d.start();
        d.run();
        c.tape.echo(nullptr);
        compare_histories(c, first, again, what);
        d.real.reset();
        noise.reset();
    }
    Pool::fill = 0xA5;
    vsim::alloc_fill_seed(0xA5);
}

// ---- C04: large event schedules ------------------------------------------------
void schedule_run(Ctx &c);
void schedule2_run(Ctx &c);
void large_run(Ctx &c) {
    if (c.chance(1, 5)) return schedule2_run(c);
    if (c.chance(9, 10)) return schedule_run(c);
    Opt o;
    o.fixed_models = c.range(20, c.thorough ? 1800 : 500);
    o.max_steps = 60;
    o.dyn = c.chance(1, 4);
    o.inject = c.chance(1, 3);
    o.lazy = true;
    Duo d(c, o);
    d.generate();
    if (c.chance(1, 2)) {  // nothing but time advances
        d.w.initial.erase(std::remove_if(d.w.initial.begin(), d.w.initial.end(), [](GOp const &x) { return x.type == CPA; }),
                          d.w.initial.end());
    }
    d.start();
    c.feature("large-network");
    d.run();
}

// ---- C06: the graph on its own --------------------------------------------------
void pin_laws_run(Ctx &);
void graph_run(Ctx &c) {
    if (c.chance(1, 25)) return pin_laws_run(c);
    Opt o;
    o.max_models = 6;
    o.env_dyn = true;
    o.grow = true;
    World w;
    int inst;
    gen_world(c, o, w, inst);
    w.sd = inst_is_sd(inst);
    Pool::reset(w.place_seed, 256);
    std::unique_ptr<IReal> real(make_real(inst, &w));
    w.real = real.get();
    real->build();
    RefStruct ref;
    for (auto &x : w.initial) ref.apply(x);
    ref.flatten();
    w.pview = ref;
    bool prov = false;
    std::vector<GOp> pend;
    if (c.tracing)
        for (auto &x : w.initial) c.note("setup: " + op_str(x));
    auto observe = [&]() {
        auto mem = real->members();
        VCHECK(mem == ref.present, "graph-members", "the graph holds ", mem.size(), " models, expected ", ref.present.size());
        for (int p = 0; p < w.pins; p++) {
            std::vector<std::pair<int, int>> want, got = real->route(p);
            ref.route(p, want);
            std::sort(want.begin(), want.end());
            std::sort(got.begin(), got.end());
            if (want != got) {
                std::string s;
                for (auto &x : want) s += cat("p", x.first, "->m", x.second, " ");
                s += "but got ";
                for (auto &x : got) s += cat("p", x.first, "->m", x.second, " ");
                c.violate("graph-route", cat("route from p", p, ": expected ", s));
            }
        }
        if (prov || pend.empty()) {
            auto po = real->pending_ops();
            bool ok = po.size() == pend.size();
            for (std::size_t i = 0; ok && i < po.size(); i++)
                ok = po[i].type == pend[i].type && po[i].m == pend[i].m && po[i].p == pend[i].p && po[i].q == pend[i].q;
            if (!ok) {
                std::string s = "requested: ";
                for (auto &x : pend) s += op_str(x) + "; ";
                s += "pending: ";
                for (auto &x : po) s += op_str(x) + "; ";
                c.violate("graph-pending", s);
            }
        }
        c.state(ref.hash());
    };
    observe();
    int steps = c.range(1, w.long_run ? 600 : 60);
    for (int i = 0; i < steps; i++) {
        int k = (int)c.below(8);
        if (k == 7 && !prov) {
            prov = true;
            real->set_provisional(true);
            VNOTE("provisional mode");
            c.fault("provisional-mode");
        } else if (k == 7 || (k == 6 && prov)) {
            // Commit: all of it, or interrupted half way
            int n = (int)pend.size();
            if (c.chance(1, 3) && n > 0) {
                n = (int)c.below((u32)n + 1);
                c.fault("commit-interrupted");
            }
            VNOTE("commit ", n, " of ", pend.size());
            real->commit(n);
            for (int j = 0; j < n; j++) ref.apply(pend[(std::size_t)j]);
            pend.erase(pend.begin(), pend.begin() + n);
            if (!pend.empty()) {
                real->set_provisional(true);
                prov = true;
            } else {
                prov = c.chance(1, 3);
                real->set_provisional(prov);
            }
            c.count("commits");
        } else {
            GOp op;
            if (c.chance(1, 8)) {  // remove something that may not be there
                op.type = c.chance(1, 2) ? REM : DPA;
                op.m = (int)c.below((u32)w.cfg.size());
                if (op.type == DPA) op.p = (int)c.below((u32)w.pins);
                c.fault("removal-of-absent-item");
            } else if (!w.random_op([&](u32 b) { return c.below(b); }, op)) {
                continue;
            }
            VNOTE(prov ? "queue " : "", op_str(op));
            c.log("op", (u64)op.type, (u64)op.m, (u64)op.p, (u64)op.q);
            w.pview.apply(op);
            real->op(op);
            if (prov) {
                pend.push_back(op);
            } else {
                ref.apply(op);
            }
            c.nontrivial = true;
            c.count("graph-changes");
        }
        observe();
    }
    w.pview = ref;
    real.reset();
}

// ---- C10: the same history over every time type ----------------------------------
void time_laws_run(Ctx &c);
void time_types_run(Ctx &c) {
    if (c.chance(2, 5)) return time_laws_run(c);
    Opt o;
    o.mealy = c.chance(1, 3);
    o.dyn = c.chance(1, 4);
    o.single_writer = true;
    o.inject = c.chance(1, 2);
    o.split = true;
    o.retract = c.chance(1, 3);
    o.listeners = true;
    o.max_steps = 20;
    o.grow = true;
    o.force_inst = 0;
    std::vector<u32> choices;
    std::vector<std::string> first;
    World w0;
    {
        Duo d(c, o);
        d.generate();
        w0 = d.w;
        d.history = &first;
        c.tape.keep(&choices);
        d.start();
        d.run();
        c.tape.keep(nullptr);
        d.real.reset();
    }
    int r = c.range(1, 3);
    for (int i = 0; i < r; i++) {
        Duo d(c, o);
        d.check = false;
        d.w = w0;
        d.inst = c.range(1, n_inst - 1);
        d.w.drop_k = true;
        if (d.inst == 9) c.fault("clock-jitter");
        if (inst_is_sd(d.inst)) c.fault("super-dense-clock");
        VNOTE("---- again with type combination ", d.inst);
        std::vector<std::string> again;
        d.history = &again;
        c.tape.echo(&choices);
        d.start();
        d.run();
        c.tape.echo(nullptr);
        compare_histories(c, first, again, cat("type combination ", d.inst));
        d.real.reset();
    }
}

// ---- C11: errors ------------------------------------------------------------------
// Outcome of an API call that may fail
struct Outcome {
    enum { NONE, BOOM, ADEVS, OTHER } kind = NONE;
    Boom boom{-1, 0};
    void* who = nullptr;
    bool has_who = false;
    std::string what;
};
template <typename F>
static Outcome attempt(F f) {
    Outcome r;
    try {
        f();
    } catch (Boom &b) {
        r.kind = Outcome::BOOM;
        r.boom = b;
    } catch (adevs::exception &e) {
        r.kind = Outcome::ADEVS;
        r.has_who = true;
        r.who = (void*)e.who();
        r.what = e.what();
    } catch (std::exception &e) {
        r.kind = Outcome::OTHER;
        r.what = e.what();
    }
    return r;
}

// Mealy models that always answer, coupled to each other in any way. They are
// fed by the pins of the other models.
static void add_mealy_graph(Ctx &c, World &w) {
    int M = (int)w.cfg.size(), pin0 = w.pins;
    int n = c.chance(1, 3) ? c.range(1, 3) : c.range(2, 10);
    w.pins += n;
    std::vector<std::vector<int>> to((std::size_t)n);
    if (c.chance(1, 2)) {  // a ring of some of them
        int r = c.range(1, n);
        for (int i = 0; i < r; i++) to[(std::size_t)i].push_back((i + 1) % r);
    }
    bool forward = c.chance(1, 3);  // no loops other than that
    int k = c.range(0, 3);
    for (int i = 0; i < n; i++)
        for (int j = c.range(0, k); j > 0; j--) {
            int t = c.range(0, n - 1);
            if (!forward || t > i) to[(std::size_t)i].push_back(t);
        }
    int infp = c.chance(1, 2) ? 100 : c.range(30, 90);
    std::vector<int> order;
    for (int i = 0; i < n; i++) order.insert(order.begin() + c.range(0, i), i);
    std::vector<int> where((std::size_t)n);
    for (int i = 0; i < n; i++) where[(std::size_t)order[(std::size_t)i]] = i;
    auto add = [&](OpType t, int m, int p, int q) {
        GOp a;
        a.type = t;
        a.m = m;
        a.p = p;
        a.q = q;
        w.initial.push_back(a);
    };
    for (int i = 0; i < n; i++) {
        MCfg m;
        m.s0 = c.below(1 << 20);
        m.mealy = true;
        m.always_out = true;
        m.ta_inf = infp;
        m.ta_max = 8;
        int who = order[(std::size_t)i];
        for (int t : to[(std::size_t)who]) m.opins.push_back(pin0 + where[(std::size_t)t]);
        w.cfg.push_back(m);
        add(ADD, M + i, 0, 0);
        add(CPA, M + i, pin0 + i, 0);
    }
    // Something outside feeds them, and something outside listens
    for (int j = c.range(1, 3); j > 0; j--) add(CPP, 0, (int)c.below((u32)pin0), pin0 + c.range(0, n - 1));
    if (n > 1 && c.chance(1, 4)) add(CPP, 0, pin0, pin0 + c.range(1, n - 1));
    Ref r(&w);
    r.init();
    for (int j = c.range(0, 2); j > 0 && !r.g.present.empty(); j--) {
        int m = *std::next(r.g.present.begin(), c.below((u32)r.g.present.size()));
        if (m < M && !w.cfg[(std::size_t)m].mealy) add(CPA, m, pin0 + c.range(0, n - 1), 0);
    }
    // Who may be reached from whom; those that cannot come to a loop are put
    // into an order for the reference
    std::vector<std::set<int>> next((std::size_t)n);
    for (int i = 0; i < n; i++)
        for (int p : w.cfg[(std::size_t)(M + i)].opins) {
            std::vector<std::pair<int, int>> dst;
            r.g.route(p, dst);
            for (auto &d : dst)
                if (d.second >= M) next[(std::size_t)i].insert(d.second - M);
        }
    std::set<int> ranked;
    for (bool more = true; more;) {
        more = false;
        for (int i = 0; i < n; i++) {
            if (ranked.count(i)) continue;
            bool free = true;
            for (int t : next[(std::size_t)i]) free = free && ranked.count(t);
            if (!free) continue;
            w.cfg[(std::size_t)(M + i)].cut = w.pins + n - (int)ranked.size();
            ranked.insert(i);
            more = true;
        }
    }
    for (int i = 0; i < n; i++) {
        w.cfg[(std::size_t)(M + i)].loops = ranked.count(i) == 0;
        if (!ranked.count(i)) w.cfg[(std::size_t)(M + i)].cut = w.pins;
    }
}

// Does the next cycle reach a Mealy model from which there is a way to a loop?
static bool closes_mealy_loop(Ref const &ref, World &w, int M) {
    Ref probe = ref;
    std::vector<bool> keep;
    for (auto &m : w.cfg) keep.push_back(m.mealy);
    for (std::size_t m = (std::size_t)M; m < w.cfg.size(); m++) w.cfg[m].mealy = false;  // they only listen
    probe.compute_output();
    bool reached = false;
    for (std::size_t m = 0; m < w.cfg.size(); m++) {
        w.cfg[m].mealy = keep[m];
        reached = reached || (w.cfg[m].loops && (probe.imm[m] || !probe.bag[m].empty()));
    }
    return reached;
}

// ---- C03: any graph of Mealy models, with and without loops ---------------------
void mealy_graph_run(Ctx &c) {
    Opt o;
    o.listeners = true;
    o.max_models = 5;
    o.max_pins = 5;
    Duo d(c, o);
    d.generate();
    if (d.w.atomic_only || d.w.coupled) throw vsim::Discard();
    int M = (int)d.w.cfg.size();
    add_mealy_graph(c, d.w);
    bool any = false;
    for (auto &m : d.w.cfg) any = any || m.loops;
    c.feature(any ? "mealy-loops" : "mealy-graph-without-loop");
    d.start();
    int steps = c.range(2, 30);
    for (int i = 0; i < steps; i++) {
        RT n = d.real->next();
        if (n.inf() || c.chance(1, 4)) {
            RT t;
            if (n.inf() || c.chance(1, 2)) {
                if (!d.early_time(t)) {
                    if (n.inf()) break;
                } else {
                    d.set_next(t);
                }
            }
            for (int k = c.range(1, 3); k > 0; k--) d.inject(c.range(0, d.w.pins - 1), c.range(0, 9));
        }
        bool split = c.chance(1, 3);
        if (closes_mealy_loop(d.ref, d.w, M)) {
            d.w.obs.clear();
            Outcome x = attempt([&] { split ? d.real->compute_output() : (void)d.real->exec(); });
            VCHECK(x.kind == Outcome::ADEVS, "mealy-loop-accepted", "input reached a loop of Mealy models, but there was ",
                   x.kind == Outcome::NONE ? "no exception" : x.what.c_str());
            for (auto &e : d.w.obs)
                VCHECK(e.type != E_TRANS, "mealy-loop-accepted", "a loop of Mealy models was refused after ", ev_str(e));
            c.fault("mealy-loop-closed");
            c.nontrivial = true;
            break;
        }
        if (split) {
            d.compute_output();
            d.compute_state();
        } else {
            d.exec();
        }
    }
}

void error_run(Ctx &c) {
    vsim::alloc_epoch_begin();
    Pool::reset(c.below(1 << 16), 256);
    // The bystander
    Opt ob;
    ob.no_reset = true;
    ob.max_models = 5;
    ob.mealy = c.chance(1, 3);
    ob.dyn = c.chance(1, 3);
    Duo by(c, ob);
    by.generate();
    by.start();
    // The one that fails
    Opt o;
    o.no_reset = true;
    int mode = (int)c.below(4);  // 0 time advance, 1 exception in a model, 2 Mealy loop, 3 exception in a listener
    o.mealy = mode == 2 ? false : c.chance(1, 3);
    o.dyn = c.chance(1, 3) && mode != 2;
    o.listeners = mode == 3;
    o.coupled = c.chance(1, 4);
    if (c.chance(1, 2)) o.force_inst = by.inst;
    Duo d(c, o);
    d.generate();
    if (c.chance(1, 2)) {
        d.w.pins_from = by.real.get();
        c.fault("pins-shared");
    }
    World &w = d.w;
    int M = (int)w.cfg.size();
    bool loop = false;
    if (mode == 0 || mode == 1) {
        int f = c.range(1, 2);
        for (int i = 0; i < f; i++) {
            auto &m = w.cfg[c.below((u32)M)];
            if (mode == 0) {
                m.neg_at = c.range(0, 6);
            } else {
                m.boom_at = c.range(0, 6);
                m.boom_where = m.mealy ? 0 : c.range(0, 1);
            }
        }
    } else if (mode == 2) {
        if (w.atomic_only || w.coupled) throw vsim::Discard();
        add_mealy_graph(c, w);
        loop = true;
    } else {
        w.listeners = c.range(1, 3);
        w.lboom_at = c.range(0, 12);
    }
    VNOTE("mode ", mode);
    bool failed = false;
    auto bystander = [&]() {
        int k = c.range(0, 2);
        for (int i = 0; i < k; i++)
            if (!by.step()) break;
    };
    auto want_neg = [&](Outcome const &r, std::set<int> const &neg, std::set<int> const &booms, char const* where) {
        if (r.kind == Outcome::NONE) {
            VCHECK(neg.empty() && booms.empty(), "error-swallowed", where, ": a model failed (",
                   neg.empty() ? "exception" : "negative time advance", ") but nothing was reported");
            return;
        }
        c.fault(r.kind == Outcome::BOOM ? "exception-in-callback" : "negative-time-advance");
        failed = true;
        if (r.kind == Outcome::BOOM) {
            VCHECK(booms.count(r.boom.model) != 0, "error-wrong", where, ": unexpected exception of model ", r.boom.model);
        } else {
            VCHECK(r.kind == Outcome::ADEVS, "error-wrong", where, ": ended with ", r.what);
            bool ok = false;
            for (int m : neg) ok = ok || d.real->same_model(m, r.who);
            VCHECK(!neg.empty(), "error-spurious", where, ": adevs::exception (", r.what, ") without cause");
            VCHECK(ok, "error-who", where, ": the exception (", r.what, ") does not name the model with the negative time advance");
        }
    };
    d.ref.init();
    std::set<int> neg0 = d.ref.neg, none;
    Outcome r = attempt([&] {
        // Duo::start checks the next event time, which makes no sense after an error
        d.check = neg0.empty();
        d.start();
    });
    want_neg(r, neg0, none, "construction");
    if (!neg0.empty()) VCHECK(failed, "error-swallowed", "a model with a negative time advance was accepted");
    d.check = true;
    int steps = c.range(2, 30);
    for (int i = 0; i < steps && !failed; i++) {
        bystander();
        RT n = d.real->next();
        bool inj = mode == 2 && c.chance(1, 4);
        if (n.inf() && !inj) break;
        if (inj) {
            RT t;
            if (n.inf()) {
                if (!d.early_time(t)) break;
                d.set_next(t);
            }
            d.inject(c.range(0, w.pins - 1), c.range(0, 9));
        }
        bool split = c.chance(1, 3);
        // What should happen
        w.obs.clear();
        bool ring = false;
        if (loop) {
            ring = closes_mealy_loop(d.ref, w, M);
        }
        if (ring) {
            Outcome x = attempt([&] { split ? d.real->compute_output() : (void)d.real->exec(); });
            VCHECK(x.kind == Outcome::ADEVS, "mealy-loop-accepted", "input reached a loop of ", w.cfg.size() - (std::size_t)M,
                   " Mealy models, but there was ", x.kind == Outcome::NONE ? "no exception" : x.what.c_str());
            c.fault("mealy-loop-closed");
            failed = true;
            break;
        }
        d.ref.compute_output();
        if (mode == 3) {
            // Let the listener decide; the events up to it are checked elsewhere
            Outcome x = attempt([&] {
                if (split) {
                    d.real->compute_output();
                    d.real->compute_state();
                } else {
                    d.real->exec();
                }
            });
            if (x.kind != Outcome::NONE) {
                VCHECK(x.kind == Outcome::BOOM && x.boom.model < 0 && x.boom.tag == (u64)w.lboom_at, "error-wrong",
                       "the exception of a listener arrived as ", x.what);
                c.fault("exception-in-listener");
                failed = true;
                break;
            }
            VCHECK(w.notified <= w.lboom_at, "error-swallowed", "a listener threw but nothing was reported");
            std::vector<GOp> ops;
            ops.swap(w.queued);
            d.ref.compute_state(ops);
            VCHECK(d.real->next() == d.ref.tNext, "next-event-time", "before any error");
            continue;
        }
        std::set<int> ob = d.ref.booms;
        Outcome x;
        if (!ob.empty()) {
            x = attempt([&] { split ? d.real->compute_output() : (void)d.real->exec(); });
            want_neg(x, none, ob, "output");
            continue;
        }
        // State phase: predict on a copy, because a failed cycle is not completed
        Ref next = d.ref;
        std::vector<GOp> before = w.queued;
        x = attempt([&] {
            if (split) {
                d.real->compute_output();
                d.real->compute_state();
            } else {
                d.real->exec();
            }
        });
        std::vector<GOp> ops;
        ops.swap(w.queued);
        next.compute_state(ops);
        std::set<int> neg = next.neg, booms = next.booms;
        for (int m : booms) neg.erase(m);  // it did not come to the time advance
        want_neg(x, neg, booms, "state change");
        if (x.kind == Outcome::NONE) {
            d.ref = next;
            d.now = RT(0, 0);
            VCHECK(d.real->next() == d.ref.tNext, "next-event-time", "before any error");
        }
    }
    if (failed) c.feature("failed-simulation");
    // The failed simulation is destroyed, then or at some later time
    bool early = c.chance(1, 2);
    w.recording = false;
    if (early) d.real->drop_sim((int)c.below(8));
    for (int i = 0; i < 6; i++) bystander();
    by.real.reset();
    if (!early) d.real->drop_sim((int)c.below(8));
    d.real.reset();
    VCHECK(Pool::live() == 0, "model-leak", Pool::live(), " models were never destroyed after an error");
    auto st = vsim::alloc_epoch_stats();
    VCHECK(st.live == 0, "memory-leak", st.live, " allocations (", st.live_bytes, " bytes) were never released after an error");
}

// ---- C12: lifetimes -----------------------------------------------------------------
void lifetime_run(Ctx &c) {
    vsim::alloc_epoch_begin();
    Opt o;
    o.dyn = c.chance(3, 4);
    o.env_dyn = c.chance(2, 3);
    o.mealy = c.chance(1, 3);
    o.coupled = c.chance(1, 3);
    o.multi_parent = true;
    o.inject = c.chance(1, 2);
    o.split = true;
    o.retract = c.chance(1, 3);
    o.restart = c.chance(1, 4);
    o.listeners = true;
    o.grow = true;
    Duo d(c, o);
    d.generate();
    World &w = d.w;
    int M = (int)w.cfg.size();
    w.gone.assign((std::size_t)M, 0);
    std::vector<int> absent((std::size_t)M, 0);  // cycles since a model was last part of the structure
    bool oom = c.chance(1, 3);
    int oom_step = oom ? c.range(0, 12) : -1;
    bool boom = !oom && c.chance(1, 6);
    if (boom) {
        auto &m = w.cfg[c.below((u32)M)];
        m.boom_at = c.range(0, 6);
        m.boom_where = m.mealy ? 0 : c.range(0, 1);
    }
    auto part_of = [&](RefStruct const &g, int m) {
        // The parts of a coupled model change at once, the graph after the cycle
        if (&g == &w.pview && g.coupled) {
            for (auto &nd : g.nodes)
                if (nd.atoms.count(m)) return true;
            return false;
        }
        return g.has(m);
    };
    auto verify = [&]() {
        std::vector<char> dead((std::size_t)M, 0);
        for (int m : w.destroyed) {
            VCHECK(!dead[(std::size_t)m], "destroyed-twice", "m", m);
            dead[(std::size_t)m] = 1;
        }
        for (int m = 0; m < M; m++) {
            bool in = part_of(d.ref.g, m) || part_of(w.pview, m);
            if (in) VCHECK(!dead[(std::size_t)m], "destroyed-early", "m", m, " is part of the model but was destroyed");
            if (!w.gone[(std::size_t)m]) VCHECK(!dead[(std::size_t)m], "destroyed-early", "m", m, " is referenced but was destroyed");
            if (w.gone[(std::size_t)m] && !in && absent[(std::size_t)m] >= 3)
                VCHECK(dead[(std::size_t)m], "destroyed-late", "m", m,
                       " left the model and nothing refers to it, but it still exists ", absent[(std::size_t)m], " cycles later");
        }
    };
    bool failed = false;
    int cyc = 0;
    d.between = [&]() {
        if (d.cycle != cyc) {
            for (int m = 0; m < M; m++) {
                if (part_of(d.ref.g, m) || part_of(w.pview, m)) absent[(std::size_t)m] = 0;
                else absent[(std::size_t)m] += d.cycle - cyc;
            }
            cyc = d.cycle;
        }
        if (c.chance(1, 5)) {
            int m = (int)c.below((u32)M);
            if (!w.gone[(std::size_t)m] && !w.atomic_only) {
                VNOTE("the caller lets go of m", m);
                w.gone[(std::size_t)m] = 1;
                absent[(std::size_t)m] = 0;
                d.real->drop_model(m);
                c.fault("reference-dropped");
            }
        }
        verify();
    };
    int step = 0;
    try {
        if (oom_step == 0) {
            vsim::alloc_fail_at(1 + c.below(40));
            c.feature("allocation-failure-armed");
        }
        d.start();
        int steps = c.range(2, 30);
        for (step = 1; step <= steps; step++) {
            if (step == oom_step) vsim::alloc_fail_at(1 + c.below(c.chance(1, 2) ? 8 : 60));
            if (!d.step()) break;
            d.between();
        }
    } catch (std::bad_alloc &) {
        VCHECK(vsim::alloc_failed(), "unexpected-exception", "std::bad_alloc without a failing allocation");
        VNOTE("allocation failed");
        c.fault("allocation-failed");
        failed = true;
    } catch (Boom &) {
        VNOTE("a model threw");
        c.fault("exception-in-callback");
        failed = true;
    }
    vsim::alloc_fail_at(0);
    w.recording = false;
    if (failed) w.gone.clear();
    int order = (int)c.below(8);
    VNOTE("everything is destroyed, order ", order);
    d.real->drop_sim(order);
    std::vector<int> n((std::size_t)M, 0);
    for (int m : w.destroyed) n[(std::size_t)m]++;
    for (int m = 0; m < M; m++)
        VCHECK(n[(std::size_t)m] <= 1, "destroyed-twice", "m", m);
    VCHECK(Pool::live() == 0, "model-leak", Pool::live(), " models were never destroyed");
    d.real.reset();
    auto st = vsim::alloc_epoch_stats();
    VCHECK(st.live == 0, "memory-leak", st.live, " allocations (", st.live_bytes, " bytes) were never released");
    c.count("allocations", st.allocs);
    c.nontrivial = true;
}

}  // namespace net

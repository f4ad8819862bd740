#include "net_gen.hpp"

namespace net {
int only_inst = -1;

void gen_world(vsim::Ctx &c, Opt const &o, World &w, int &inst) {
    inst = o.force_inst >= 0 ? o.force_inst : c.range(0, n_inst - 1);
    if (only_inst >= 0 && o.force_inst < 0) inst = only_inst;
    w.sd = inst_is_sd(inst);
    w.place_seed = c.below(1 << 20);
    w.atomic_only = o.atomic && c.chance(1, 12);
    w.coupled = !w.atomic_only && o.coupled && c.chance(5, 6);
    w.multi_parent = o.multi_parent && c.chance(1, 2);
    w.pins = c.range(1, o.max_pins);
    int M = w.atomic_only ? 1 : (o.fixed_models > 0 ? o.fixed_models : c.range(1, o.max_models));
    w.nodes = w.coupled ? c.range(1, 4) : 0;
    // Sizes that ordinary scenarios do not reach: many models and pins, long
    // chains of pins, Mealy models or nested parts, long histories
    enum { USUAL, LARGE, DEEP, LONG };
    int shape = o.grow && !w.atomic_only && c.chance(1, 50) ? c.range(LARGE, LONG) : USUAL;
    if (shape == LARGE) {
        M = c.range(10, c.chance(1, 6) ? 150 : 40);
        w.pins = c.range(1, 40);
        if (w.coupled) w.nodes = c.range(1, 12);
    } else if (shape == DEEP) {
        M = c.range(2, 30);
        w.pins = M + c.range(1, 30);
        if (w.coupled) w.nodes = c.range(4, 16);
    } else if (shape == LONG) {
        M = std::min(M, 4);
        w.long_run = true;
    }
    if (shape != USUAL) c.count(shape == LARGE ? "large" : (shape == DEEP ? "deep" : "long"), 1);
    w.listeners = o.listeners ? c.range(0, 3) : 0;
    if (o.elsewhere && !w.atomic_only && c.chance(1, 6)) {
        w.elsewhere = c.range(1, 2);
        c.feature(w.elsewhere == 1 ? "models-used-before" : "models-of-another-simulation");
    }
    // The mix of this run
    int mealy_pct = o.mealy ? (int)c.below(4) * 25 + 10 : 0;
    int zero = o.zero_ok && c.chance(1, 3) ? c.range(0, 50) : 0;
    int infp = c.chance(1, 2) ? c.range(0, 60) : 0;
    int ta_max = 1 << c.range(0, 4);
    int out_pct = c.range(20, 100);
    int op_pct = o.dyn ? c.range(5, 70) : 0;
    w.op_mask = 0;
    if (o.dyn || o.env_dyn) {
        // swarm: leave some kinds of changes out of some runs
        for (int i = 0; i < 9; i++)
            if (!c.chance(1, 4)) w.op_mask |= 1 << i;
        if (w.op_mask == 0) w.op_mask = 0xffff;
    }
    std::vector<int> cuts;
    for (int i = 0; i < M; i++) {
        MCfg m;
        m.s0 = c.below(1u << 30);
        m.mealy = mealy_pct > 0 && (int)c.below(100) < mealy_pct;
        m.ta_zero = zero;
        m.ta_inf = infp;
        m.ta_max = ta_max;
        m.out_pct = out_pct;
        if (m.mealy) {
            m.cut = c.range(0, w.pins);
            // now and then never imminent
            if (c.chance(1, 3)) {
                m.ta_inf = 100;
                m.ta_zero = 0;
            }
        }
        if (shape == DEEP && m.mealy && i > 0) {  // a link of a chain
            m.cut = i;
            m.opins.push_back(i);
        }
        m.op_pct = shape == USUAL ? op_pct : op_pct / 4;
        if (o.single_writer && i != 0) m.op_pct = 0;
        int k = c.range(0, 3);
        for (int j = 0; j < k; j++) {
            int p = c.range(0, w.pins - 1);
            if (m.mealy && p < m.cut) continue;
            m.opins.push_back(p);
        }
        w.cfg.push_back(m);
    }
    // The initial structure
    auto add = [&](GOp op) { w.initial.push_back(op); };
    bool changes = o.dyn || o.env_dyn;
    std::vector<std::vector<int>> home((std::size_t)std::max(1, w.nodes));
    std::vector<int> present;
    for (int m = 0; m < M; m++) {
        if (changes && !w.atomic_only && c.chance(1, 4)) continue;
        present.push_back(m);
        GOp op;
        op.type = ADD;
        op.m = m;
        if (w.coupled) {
            op.c = c.range(0, w.nodes - 1);
            home[(std::size_t)op.c].push_back(m);
        }
        add(op);
        if (c.chance(1, 6)) {  // a second occurrence
            if (w.coupled) {
                int h = c.range(0, w.nodes - 1);
                if (h != op.c) {
                    op.c = h;
                    home[(std::size_t)h].push_back(m);
                    add(op);
                }
            } else if (!w.atomic_only) {
                add(op);
            }
        }
    }
    if (w.atomic_only) return;
    int epp = c.range(0, w.pins), epa = c.range(0, 2 * M + 2);
    std::set<std::vector<int>> seen;
    if (shape == DEEP) {
        for (int i = 0; i + 1 < w.pins; i++) {
            GOp op;
            op.type = CPP;
            op.p = i;
            op.q = i + 1;
            if (w.coupled) op.c = c.range(0, w.nodes - 1);
            bool link = i < M && w.cfg[(std::size_t)i].mealy;
            if (!link && !c.chance(1, 8)) add(op);
        }
        for (int i = 1; i < M; i++) {
            GOp op;
            op.type = CPA;
            op.p = i - 1;
            op.m = i;
            bool found = !w.coupled && std::find(present.begin(), present.end(), i) != present.end();
            for (int n = 0; w.coupled && n < w.nodes; n++)
                if (std::find(home[(std::size_t)n].begin(), home[(std::size_t)n].end(), i) != home[(std::size_t)n].end()) {
                    op.c = n;
                    found = true;
                }
            if (found && w.valid_pa(op.p, i)) add(op);
        }
        epp = std::min(epp, 3);
    }
    for (int i = 0; i < epp; i++) {
        GOp op;
        op.type = CPP;
        op.p = c.range(0, w.pins - 1);
        op.q = c.range(0, w.pins - 1);
        if (w.coupled) op.c = c.range(0, w.nodes - 1);
        if (op.p >= op.q) continue;
        if (w.coupled && !seen.insert({op.c, op.p, op.q}).second && !c.chance(1, 2)) continue;
        add(op);
    }
    for (int i = 0; i < epa; i++) {
        GOp op;
        op.type = CPA;
        op.p = c.range(0, w.pins - 1);
        if (w.coupled) {
            op.c = c.range(0, w.nodes - 1);
            auto &h = home[(std::size_t)op.c];
            if (h.empty()) continue;
            op.m = h[c.below((u32)h.size())];
            if (!seen.insert({op.c, op.p, 1000 + op.m}).second && !c.chance(1, 2)) continue;
        } else {
            if (present.empty()) continue;
            op.m = present[c.below((u32)present.size())];
        }
        if (!w.valid_pa(op.p, op.m)) continue;
        add(op);
    }
    if (w.coupled) {
        for (int i = 1; i < w.nodes; i++) {
            GOp op;
            op.type = ADDC;
            op.c2 = i;
            if (changes && c.chance(1, 4)) continue;  // detached to begin with
            op.c = shape == DEEP && !c.chance(1, 6) ? i - 1 : c.range(0, i - 1);
            add(op);
            if (w.multi_parent && c.chance(1, 2)) {
                int p2 = c.range(0, i - 1);
                if (p2 != op.c) {
                    op.c = p2;
                    add(op);
                }
            }
        }
        // A hierarchy may be assembled in any order, before or after the
        // parts have been filled.
        if (c.chance(1, 3))
            std::stable_partition(w.initial.begin(), w.initial.end(),
                                  [](GOp const &x) { return x.type == ADDC; });
    }
}

void Duo::start() {
    if (!o.no_reset) vsim::Pool::reset(w.place_seed, 128 + (int)w.cfg.size() * 2);
    real.reset(make_real(inst, &w));
    w.real = real.get();
    w.recording = true;
    ref.init();
    w.pview = ref.g;
    w.queued.clear();
    now = RT(0, 0);
    if (c.tracing) {
        VNOTE("type combination ", inst, w.sd ? " (super dense time)" : "", ", ", w.cfg.size(),
              " models, ", w.pins, " pins, ", w.nodes, " coupled, placement ", w.place_seed);
        for (std::size_t i = 0; i < w.cfg.size(); i++) {
            std::string s = cat("m", i, w.cfg[i].mealy ? " Mealy" : " Moore", " s0=", w.cfg[i].s0);
            for (int p : w.cfg[i].opins) s += cat(" out:p", p);
            c.note(s);
        }
        for (auto &op : w.initial) c.note("setup: " + op_str(op));
    }
    real->build();
    real->start();
    c.feature(w.atomic_only ? "simulator-of-atomic" : (w.coupled ? "simulator-of-coupled" : "simulator-of-graph"));
    check_next();
    c.log("start", (u64)inst, w.cfg.size(), (u64)w.pins, w.place_seed);
}

void Duo::check_next() {
    RT n = real->next();
    c.log("next", n.hash());
    if (check)
        VCHECK(n == ref.tNext, "next-event-time", "after cycle ", cycle, ": nextEventTime() is ", n,
               " but the earliest scheduled event is at ", ref.tNext);
}

static std::string bag_list(std::vector<std::string> &v) {
    std::sort(v.begin(), v.end());
    std::string s;
    for (auto &x : v) s += x + "; ";
    return s;
}

void Duo::record(char const* what, std::vector<Ev> obs, RT ret) {
    std::vector<std::string> v;
    for (auto &e : obs) v.push_back(ev_str(e));
    for (auto &e : obs) c.log(ev_str(e).c_str());
    if (c.tracing) {
        for (auto &e : obs) c.note("    " + ev_str(e));
    }
    if (history != nullptr) history->push_back(cat(what, " -> ", ret, ": ", bag_list(v)));
}

void Duo::compute_output() {
    if (w.pause) w.pause();
    VNOTE("computeNextOutput() at ", ref.tNext);
    w.obs.clear();
    if (check) ref.compute_output();
    real->compute_output();
    std::vector<Ev> obs;
    obs.swap(w.obs);
    record("computeNextOutput", obs, RT());
    if (check) check_output(obs);
    c.count("output-calculations");
}

static std::string diff(std::vector<std::string> &want, std::vector<std::string> &got) {
    std::sort(want.begin(), want.end());
    std::sort(got.begin(), got.end());
    std::vector<std::string> a, b;
    std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(a));
    std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(b));
    std::string s = "missing [";
    for (std::size_t i = 0; i < a.size() && i < 6; i++) s += (i ? ", " : "") + a[i];
    s += "] unexpected [";
    for (std::size_t i = 0; i < b.size() && i < 6; i++) s += (i ? ", " : "") + b[i];
    return s + "]";
}

void Duo::check_output(std::vector<Ev> const &obs) {
    std::vector<std::string> want, got, lwant, lgot;
    for (auto &e : obs) {
        if (e.type == E_OUTCALL) got.push_back(ev_str(e));
        else if (e.type == E_LOUT) lgot.push_back(ev_str(e));
        else if (e.type != E_OP)
            c.violate("state-change-in-output", cat("computeNextOutput() at ", ref.tNext,
                                                    " caused ", ev_str(e)));
    }
    for (int m : ref.outcalls) {
        Ev e;
        e.type = E_OUTCALL;
        e.model = m;
        want.push_back(ev_str(e));
    }
    std::sort(want.begin(), want.end());
    std::sort(got.begin(), got.end());
    VCHECK(want == got, "output-calls", "cycle ", cycle, " at ", ref.tNext,
           ": models asked for output: ", diff(want, got));
    for (int l = 0; l < w.listeners; l++)
        for (std::size_t m = 0; m < ref.out.size(); m++)
            for (auto &y : ref.out[m]) {
                Ev e;
                e.type = E_LOUT;
                e.listener = l;
                e.model = (int)m;
                e.pin = y.first;
                e.val = y.second;
                e.t = ref.tNext;
                lwant.push_back(ev_str(e));
            }
    std::sort(lwant.begin(), lwant.end());
    std::sort(lgot.begin(), lgot.end());
    VCHECK(lwant == lgot, "output-notification", "cycle ", cycle, " at ", ref.tNext,
           ": output notifications: ", diff(lwant, lgot));
}

void Duo::compute_state() {
    if (w.pause) w.pause();
    VNOTE("computeNextState() at ", ref.tNext);
    w.obs.clear();
    RT ret = real->compute_state();
    std::vector<Ev> obs;
    obs.swap(w.obs);
    record("computeNextState", obs, ret);
    if (check) check_state(obs, ret);
    else {
        now = ret;
        w.queued.clear();
    }
    check_next();
    after_cycle();
}

void Duo::check_state(std::vector<Ev> const &obs, RT ret) {
    RT t = ref.tNext;
    std::vector<GOp> ops;
    ops.swap(w.queued);
    RT want_now = ref.compute_state(ops);
    std::vector<std::string> want, got, lwant, lgot;
    std::map<int, int> phase;  // per model: 1 input notified, 2 transition, 3 state notified
    for (auto &e : obs) {
        if (e.type == E_TRANS) {
            got.push_back(ev_str(e));
            phase[e.model] |= 2;
        } else if (e.type == E_LIN) {
            lgot.push_back(ev_str(e));
            VCHECK((phase[e.model] & 2) == 0, "notification-order", "cycle ", cycle, ": ", ev_str(e),
                   " came after the transition it announces");
        } else if (e.type == E_LST) {
            lgot.push_back(ev_str(e));
            VCHECK((phase[e.model] & 2) != 0, "notification-order", "cycle ", cycle, ": ", ev_str(e),
                   " came before the transition it reports");
        } else if (e.type == E_LOUT || e.type == E_OUTCALL) {
            c.violate("output-in-state", cat("computeNextState() caused ", ev_str(e)));
        }
    }
    for (auto &e : ref.trans) {
        want.push_back(ev_str(e));
        for (int l = 0; l < w.listeners; l++) {
            Ev x;
            x.type = E_LST;
            x.listener = l;
            x.model = e.model;
            x.t = t;
            lwant.push_back(ev_str(x));
            x.type = E_LIN;
            for (auto &y : e.bag) {
                x.pin = y.first;
                x.val = y.second;
                lwant.push_back(ev_str(x));
            }
        }
        c.state(mix(mix((u64)e.kind, e.t.hash(), e.bag.size()), ref.g.hash(), ref.trans.size()));
    }
    std::sort(want.begin(), want.end());
    std::sort(got.begin(), got.end());
    VCHECK(want == got, "transitions", "cycle ", cycle, " at ", t, ": state transitions: ",
           diff(want, got));
    std::sort(lwant.begin(), lwant.end());
    std::sort(lgot.begin(), lgot.end());
    VCHECK(lwant == lgot, "state-notification", "cycle ", cycle, " at ", t, ": notifications: ",
           diff(lwant, lgot));
    VCHECK(ret == want_now, "current-time", "cycle ", cycle, ": returned time is ", ret,
           " but the current time is ", want_now);
    if (!now.inf())
        VCHECK(!(ret < now), "time-order", "cycle ", cycle, ": time went from ", now, " to ", ret);
    now = ret;
    if (ref.trans.size() > 1) {
        c.feature("simultaneous-transitions");
        c.nontrivial = true;
    }
    for (auto &e : ref.trans) {
        c.count(e.kind == K_INT ? "internal-transitions" : (e.kind == K_EXT ? "external-transitions" : "confluent-transitions"));
        if (e.kind == K_CONF) c.feature("confluent");
        if (!e.bag.empty()) c.nontrivial = true;
    }
}

void Duo::after_cycle() {
    c.count("cycles");
    cycle++;
    if (check && !w.coupled && !w.atomic_only) {
        auto mem = real->members();
        VCHECK(mem == ref.g.present, "membership", "after cycle ", cycle,
               ": the graph holds ", mem.size(), " models but ", ref.g.present.size(), " are part of it");
    }
}

void Duo::exec() {
    if (w.pause) w.pause();
    VNOTE("execNextEvent() at ", ref.tNext);
    w.obs.clear();
    if (check) ref.compute_output();
    RT ret = real->exec();
    std::vector<Ev> obs, a, b;
    obs.swap(w.obs);
    record("execNextEvent", obs, ret);
    if (check) {
        bool state_phase = false;
        for (auto &e : obs) {
            if (e.type == E_OUTCALL || e.type == E_LOUT) {
                VCHECK(!state_phase, "output-after-state", "cycle ", cycle, " at ", ref.tNext, ": ", ev_str(e),
                       " came after a state change of the same cycle");
                a.push_back(e);
            } else {
                state_phase = true;
                b.push_back(e);
            }
        }
        check_output(a);
        check_state(b, ret);
    } else {
        now = ret;
        w.queued.clear();
    }
    check_next();
    after_cycle();
}

void Duo::inject(int pin, long val) {
    if (w.pause) w.pause();
    VNOTE("injectInput p", pin, "=", val);
    real->inject(pin, val);
    if (check) ref.injected.emplace_back(pin, val);
    c.log("inject", (u64)pin, (u64)val);
    c.fault("external-input");
}

void Duo::set_next(RT t) {
    if (w.pause) w.pause();
    VNOTE("setNextTime ", t);
    real->set_next(t);
    ref.tNext = t;
    c.log("set", t.hash());
    RT n = real->next();
    VCHECK(n == t, "next-event-time", "nextEventTime() is ", n, " after setNextTime(", t, ")");
}

// The simulator dies at this point; what survives is the model.
void Duo::restart() {
    VNOTE("the simulator is destroyed and a new one takes over the model");
    c.fault("simulator-restart");
    bool later = c.chance(1, 2);
    if (later) c.feature("simulators-overlap");
    real->stop(later);
    if (w.coupled) {
        // The changes that the old simulator had not made are part of the
        // coupled models already.
        for (auto &o : w.queued) ref.g.apply(o);
        w.queued.clear();
        // Changes while there is no simulator
        if (o.env_dyn && c.chance(1, 2)) {
            GOp op;
            if (w.random_op([&](u32 b) { return c.below(b); }, op)) {
                VNOTE("without a simulator: ", op_str(op));
                w.request(op);
                ref.g.apply(op);
                w.queued.clear();
            }
        }
    }
    now = RT(0, 0);
    if (check) ref.restart();
    w.obs.clear();
    real->start();
    check_next();
}

void Duo::late_listener() {
    if (!o.late_listeners || w.listeners >= 6 || !c.chance(1, 3)) return;
    VNOTE("another listener is registered: l", w.listeners);
    real->add_listener(w.listeners);
    w.listeners++;
    c.feature("late-listener");
}

void Duo::inject_some() {
    int k = c.range(1, 3);
    for (int i = 0; i < k; i++) inject(c.range(0, w.pins - 1), c.range(0, 49));
}

void Duo::edit_some(char const* what) {
    int r = c.range(1, 3);
    for (int i = 0; i < r; i++) {
        GOp op;
        if (w.random_op([&](u32 b) { return c.below(b); }, op)) {
            VNOTE("from outside: ", op_str(op));
            w.request(op);
            c.log("envop", (u64)op.type, (u64)op.m);
            c.fault(what);
        }
    }
}

// A time at which the simulator can be made to stop before its next event
bool Duo::early_time(RT &t) { return early_time(t, real->next()); }
bool Duo::early_time(RT &t, RT n) {
    if (now.inf()) return false;
    RT cand = now;
    if (w.sd && c.chance(1, 2)) {
        cand.k = now.k + c.range(0, 2);
    } else {
        long span = n.inf() ? 12 : n.t - now.t;
        if (span < 0) return false;
        long d = (long)c.below((u32)span + 1);
        cand.t = now.t + d;
        if (d != 0) cand.k = w.sd ? c.range(0, 2) : 0;
    }
    if (!(cand < n)) return false;
    t = cand;
    return true;
}

bool Duo::step() {
    RT n = real->next();
    if (w.sd && n.inf() && !(o.inject || o.retract)) return false;
    if (now.inf()) return false;
    if (n.t > 4000 && !n.inf()) return false;
    int kinds = 12;
    int k = o.lazy && !c.chance(1, 8) ? 0 : (int)c.below((u32)kinds);
    RT t;
    late_listener();
    bool can_exec = !n.inf();
    bool did = true;
    switch (k) {
        case 1:
            if (!o.split || n.inf()) { did = false; break; }
            {
                int r = c.range(1, 3);
                if (r > 1) c.feature("recomputed-output");
                for (int i = 0; i < r; i++) {
                    compute_output();
                    late_listener();
                    if (o.env_dyn && c.chance(1, 4)) edit_some("structure-change-after-output");
                }
                compute_state();
            }
            break;
        case 2:
            if (!o.inject || n.inf()) { did = false; break; }
            inject_some();
            c.feature("input-at-event-time");
            exec();
            break;
        case 3:
            if (!o.inject || !early_time(t)) { did = false; break; }
            set_next(t);
            inject_some();
            c.feature("input-between-events");
            if (o.split && c.chance(1, 2)) {
                compute_output();
                compute_state();
            } else {
                exec();
            }
            break;
        case 4:
            if (!o.inject || n.inf()) { did = false; break; }
            inject_some();
            VNOTE("clearInjectedInput()");
            real->clear_injected();
            ref.injected.clear();
            c.fault("input-withdrawn");
            exec();
            break;
        case 5:
            if (!o.retract || n.inf()) { did = false; break; }
            // As a federate: publish the next output, then learn of an
            // earlier input and take the output back.
            compute_output();
            if (o.env_dyn && c.chance(1, 4)) edit_some("structure-change-after-output");
            if (!early_time(t)) {
                compute_state();
                break;
            }
            c.fault("output-retracted");
            set_next(t);
            inject_some();
            exec();
            break;
        case 6:
            if (!o.inject || !o.split || n.inf()) { did = false; break; }
            compute_output();
            inject_some();
            late_listener();
            c.feature("input-after-output");
            if (o.env_dyn && c.chance(1, 4)) edit_some("structure-change-after-output");
            compute_state();  // the input waits for the next output calculation
            break;
        case 7:
            if (!o.inject || !o.retract || n.inf()) { did = false; break; }
            inject_some();
            compute_output();
            c.fault("input-retracted");
            compute_output();  // without the injected input
            compute_state();
            break;
        case 8:
            if (!o.env_dyn) { did = false; break; }
            edit_some("structure-change-between-cycles");
            break;
        case 9:
            if (!o.retract || !early_time(t)) { did = false; break; }
            set_next(t);
            c.feature("empty-cycle");
            exec();
            break;
        case 10:
            if (!o.restart || !c.chance(1, 3)) { did = false; break; }
            if (c.chance(1, 3) && !n.inf()) compute_output();
            if (o.inject && c.chance(1, 4)) inject_some();
            restart();
            break;
        case 11:
            // The outside world changes its mind, more than once
            if (!o.retract || !o.inject || !o.split || n.inf()) { did = false; break; }
            c.feature("wavering-driver");
            {
                bool computed = false;
                int calls = c.range(2, 7);
                for (int i = 0; i < calls; i++) switch (c.below(6)) {
                    case 0:
                        if (!early_time(t, n)) break;
                        set_next(t);
                        computed = false;
                        break;
                    case 1:
                        if (real->next() != n) c.fault("next-time-restored");
                        set_next(n);
                        computed = false;
                        break;
                    case 2: inject_some(); break;
                    case 3:
                        VNOTE("clearInjectedInput()");
                        real->clear_injected();
                        ref.injected.clear();
                        c.fault("input-withdrawn");
                        break;
                    default:
                        compute_output();
                        computed = true;
                        break;
                }
                if (!computed) compute_output();
                compute_state();
            }
            break;
        default: did = false; break;
    }
    if (!did) {
        if (!can_exec || n.inf()) {
            // Nothing is scheduled: only an input or a change from outside
            // can continue the run.
            if (o.inject && early_time(t)) {
                set_next(t);
                inject_some();
                exec();
                return true;
            }
            if (!w.queued.empty() && early_time(t)) {
                set_next(t);  // a cycle just to make the requested changes
                exec();
                return true;
            }
            if (n.inf() && history == nullptr && w.queued.empty() && !w.sd && ref.injected.empty() && c.chance(1, 2)) {
                exec();  // harmless
                return false;
            }
            return false;
        }
        exec();
    }
    return true;
}

void Duo::run() {
    int steps = c.range(2, w.long_run ? 2500 : o.max_steps);
    for (int i = 0; i < steps; i++) {
        if (!step()) break;
        if (between) between();
    }
    if (!now.inf()) c.sim_time += (double)now.t * 0.125;
    c.count("structure-changes", 0);
}

}  // namespace net

// A network cut into federates: each has a simulator of its own, and the
// federates exchange their outputs over a simulated network, as the
// documentation of the simulator describes. The reference is the undivided
// network.
#include <queue>
#include "net_gen.hpp"

namespace net {
using vsim::Ctx;
using vsim::Pool;

namespace {
struct Msg {
    u64 id;
    int src, dst, pin;
    long val;
};
struct NetEv {
    long at;
    u64 seq;
    int what;  // 0 delivery, 1 retransmission, 2 federate wakes up
    Msg m;
    bool operator<(NetEv const &o) const { return at != o.at ? at > o.at : seq > o.seq; }
};
struct Cycle {  // durable record of one cycle of a federate
    RT t;
    std::vector<std::pair<int, long>> in;
    std::vector<std::string> trans;
};
struct Fed {
    World w;
    int inst = 0;
    std::unique_ptr<IReal> real;
    RefStruct g;
    std::vector<Cycle> log;
    std::vector<std::pair<int, long>> in;  // inputs of the round, recorded durably
    std::set<u64> seen;
    bool ahead = false;        // outputs computed for its own next event
    std::vector<Ev> outs;      // published for its next event
    RT next;                   // its own plan
    bool stopped_early = false;
};
}  // namespace

struct Federation {
    Ctx &c;
    World all;
    Ref ref;
    std::vector<std::unique_ptr<Fed>> feds;
    std::vector<int> home;
    std::priority_queue<NetEv> q;
    u64 seq = 0, ids = 0;
    long wall = 0;
    int drop, dup, crash, jitter;
    std::map<u64, bool> acked;

    explicit Federation(Ctx &c) : c(c), ref(&all) {}
    ~Federation() {
        for (auto &f : feds) f->real.reset();
    }

    void generate() {
        Opt o;
        o.max_models = 9;
        o.mealy = c.chance(1, 3);
        o.inject = true;
        int inst;
        gen_world(c, o, all, inst);
        int F = c.range(1, 4);
        int M = (int)all.cfg.size();
        ref.init();
        // Mealy models share no data with other federates, so what they
        // reach stays with them.
        std::vector<int> rep((std::size_t)M);
        for (int i = 0; i < M; i++) rep[(std::size_t)i] = i;
        std::function<int(int)> find = [&](int i) { return rep[(std::size_t)i] == i ? i : rep[(std::size_t)i] = find(rep[(std::size_t)i]); };
        for (int i = 0; i < M; i++) {
            if (!all.cfg[(std::size_t)i].mealy) continue;
            for (int p : all.cfg[(std::size_t)i].opins) {
                std::vector<std::pair<int, int>> d;
                ref.g.route(p, d);
                for (auto &x : d) rep[(std::size_t)find(x.second)] = find(i);
            }
        }
        std::vector<int> place((std::size_t)M);
        for (int i = 0; i < M; i++) place[(std::size_t)i] = c.range(0, F - 1);
        home.resize((std::size_t)M);
        for (int i = 0; i < M; i++) home[(std::size_t)i] = place[(std::size_t)find(i)];
        for (int f = 0; f < F; f++) {
            feds.emplace_back(new Fed);
            Fed &x = *feds.back();
            x.w.sd = all.sd;
            x.w.pins = all.pins;
            x.w.cfg = all.cfg;
            x.w.listeners = 1;
            x.w.place_seed = all.place_seed + (u64)f;
            do {
                x.inst = c.range(0, n_inst - 1);
            } while (inst_is_sd(x.inst) != all.sd && (x.inst = all.sd ? 6 + x.inst % 3 : x.inst % 6, false));
            for (auto &op : all.initial)
                if (op.m < 0 || home[(std::size_t)op.m] == f) x.w.initial.push_back(op);
            for (auto &op : x.w.initial) x.g.apply(op);
            x.g.flatten();
        }
        drop = c.chance(1, 2) ? c.range(0, 40) : 0;
        dup = c.chance(1, 2) ? c.range(0, 40) : 0;
        crash = c.chance(1, 2) ? c.range(0, 12) : 0;
        jitter = 1 << c.range(0, 6);
        if (c.tracing) {
            for (int i = 0; i < M; i++) {
                std::string s = cat("m", i, all.cfg[(std::size_t)i].mealy ? " Mealy" : " Moore", " at F", home[(std::size_t)i]);
                for (int p : all.cfg[(std::size_t)i].opins) s += cat(" out:p", p);
                c.note(s);
            }
            for (auto &op : all.initial) c.note("setup: " + op_str(op));
        }
    }

    void boot(Fed &f) {
        f.real.reset(make_real(f.inst, &f.w));
        f.w.real = f.real.get();
        f.w.obs.clear();
        f.w.pview = f.g;
        f.w.queued.clear();
        f.real->build();
        f.real->start();
        f.next = f.real->next();
        f.ahead = false;
        f.stopped_early = false;
        f.outs.clear();
    }

    std::vector<std::string> transitions(std::vector<Ev> const &obs) {
        std::vector<std::string> v;
        for (auto &e : obs)
            if (e.type == E_TRANS) v.push_back(ev_str(e));
        std::sort(v.begin(), v.end());
        return v;
    }

    // The process of the federate dies. Its log is durable; everything else
    // is made anew by repeating the log.
    void crash_restart(int i) {
        Fed &f = *feds[(std::size_t)i];
        VNOTE("  F", i, " crashes and restarts from its log of ", f.log.size(), " cycles");
        c.fault("federate-crash");
        f.w.recording = false;
        f.real.reset();
        f.w.recording = true;
        boot(f);
        for (auto &cy : f.log) {
            if (f.real->next() != cy.t) f.real->set_next(cy.t);
            for (auto &x : cy.in) f.real->inject(x.first, x.second);
            f.w.obs.clear();
            f.real->exec();
            auto t = transitions(f.w.obs);
            VCHECK(t == cy.trans, "replay-differs", "federate ", i, " restarted from its log behaves differently at ", cy.t);
        }
        f.next = f.real->next();
    }

    void compute_output(int i) {
        Fed &f = *feds[(std::size_t)i];
        f.w.obs.clear();
        f.real->compute_output();
        f.outs.clear();
        for (auto &e : f.w.obs) {
            if (e.type == E_LOUT) f.outs.push_back(e);
            VCHECK(e.type != E_TRANS, "state-change-in-output", ev_str(e));
        }
        f.ahead = true;
        c.log("F-output", (u64)i, f.outs.size());
    }

    void send(Msg m, bool again) {
        if (again) c.fault("retransmission");
        long d = 1 + (long)c.below((u32)jitter);
        if ((int)c.below(100) < drop) {
            c.fault("message-lost");
        } else {
            q.push({wall + d, seq++, 0, m});
            if ((int)c.below(100) < dup) {
                c.fault("message-duplicated");
                q.push({wall + d + 1 + (long)c.below((u32)jitter), seq++, 0, m});
            }
        }
        q.push({wall + 2 * jitter + 1, seq++, 1, m});
        c.count("messages-sent");
    }

    void deliver(Msg const &m, RT t) {
        Fed &f = *feds[(std::size_t)m.dst];
        if (!f.seen.insert(m.id).second) {
            c.fault("duplicate-suppressed");
            acked[m.id] = true;
            return;
        }
        VNOTE("  F", m.dst, " receives p", m.pin, "=", m.val, " from F", m.src);
        c.log("deliver", m.id, (u64)m.dst, (u64)wall);
        f.in.emplace_back(m.pin, m.val);  // durable before it is acknowledged
        acked[m.id] = true;
        if ((int)c.below(100) < crash) {
            crash_restart(m.dst);
            // the inputs of this round were recorded
            if (f.next != t) {
                f.real->set_next(t);
                f.stopped_early = true;
            }
            for (auto &x : f.in) f.real->inject(x.first, x.second);
            return;
        }
        if (f.next != t && !f.stopped_early) {
            if (f.ahead) {
                c.fault("output-retracted");
                VNOTE("  F", m.dst, " retracts its output for ", f.next);
            }
            f.real->set_next(t);
            f.stopped_early = true;
        }
        f.real->inject(m.pin, m.val);
    }

    bool round() {
        int F = (int)feds.size();
        RT t = RT::infinity();
        for (int i = 0; i < F; i++) {
            Fed &f = *feds[(std::size_t)i];
            f.next = f.real->next();
            if (f.next < t) t = f.next;
            f.in.clear();
            f.ahead = false;
            f.stopped_early = false;
            f.outs.clear();
            f.seen.clear();
        }
        VCHECK(t == ref.tNext, "next-event-time", "the earliest event of the federates is at ", t, " but that of the whole is at ",
               ref.tNext);
        // The environment is one more source of events
        std::vector<std::pair<int, long>> env;
        RT at = t;
        bool early = false;
        if (c.chance(1, 4)) {
            RT last = now;
            long span = t.inf() ? 10 : t.t - last.t;
            RT cand = last;
            if (span >= 0) {
                long d = (long)c.below((u32)span + 1);
                cand = d == 0 ? last : RT(last.t + d, 0);
                if (!(t < cand)) {
                    at = cand;
                    early = at != t;
                    int k = c.range(1, 2);
                    for (int j = 0; j < k; j++) env.emplace_back(c.range(0, all.pins - 1), (long)c.below(50));
                }
            }
        }
        if (at.inf()) return false;
        if (at.t > 2000) return false;
        VNOTE("round at ", at);
        // Federates may publish ahead of time
        for (int i = 0; i < F; i++) {
            Fed &f = *feds[(std::size_t)i];
            if (f.next.inf()) continue;
            if (f.next == at || c.chance(1, 3)) {
                if ((int)c.below(100) < crash) {
                    crash_restart(i);
                }
                compute_output(i);
                if (f.next != at) c.feature("published-ahead");
            }
        }
        acked.clear();
        auto post = [&](int src, int pin, long val) {
            for (int j = 0; j < F; j++) {
                if (j == src) continue;
                std::vector<std::pair<int, int>> d;
                feds[(std::size_t)j]->g.route(pin, d);
                if (d.empty()) continue;
                Msg m{ids++, src, j, pin, val};
                acked[m.id] = false;
                send(m, false);
            }
        };
        for (int i = 0; i < F; i++) {
            Fed &f = *feds[(std::size_t)i];
            if (f.next == at)
                for (auto &e : f.outs) post(i, e.pin, e.val);
        }
        for (auto &x : env) {
            post(-1, x.first, x.second);
            ref.injected.emplace_back(x.first, x.second);
            c.fault("external-input");
        }
        if (early) ref.tNext = at;
        // The network delivers, late, twice, in any order
        u64 guard = 0;
        bool all_in = false;
        while (!all_in) {
            all_in = true;
            for (auto &x : acked) all_in = all_in && x.second;
            if (all_in) break;
            VCHECK(!q.empty() && guard++ < 100000, "harness", "the simulated network lost a message for good");
            NetEv e = q.top();
            q.pop();
            if (e.at > wall) wall = e.at;
            if (!acked.count(e.m.id)) continue;  // of an earlier round
            if (e.what == 0) deliver(e.m, at);
            else if (!acked[e.m.id]) send(e.m, true);
        }
        // Stragglers of this round come later and are recognised
        // The grant: every federate concerned makes its cycle, in any order
        ref.compute_output();
        std::vector<int> order;
        for (int i = 0; i < F; i++) {
            Fed &f = *feds[(std::size_t)i];
            if (f.next == at || !f.in.empty()) order.push_back(i);
        }
        for (std::size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[c.below((u32)i)]);
        std::vector<std::string> got, out;
        RT ret = rt_add(at, ref.eps());
        for (int i : order) {
            Fed &f = *feds[(std::size_t)i];
            if ((int)c.below(100) < crash) {
                crash_restart(i);
                if (f.next != at) f.real->set_next(at);
                for (auto &x : f.in) f.real->inject(x.first, x.second);
            }
            std::vector<Ev> before = f.outs;
            f.w.obs.clear();
            RT r;
            bool plain = f.ahead && f.in.empty() && f.next == at && c.chance(1, 2);
            if (plain) {
                r = f.real->compute_state();
            } else {
                r = f.real->exec();
                std::vector<std::string> a, b;
                for (auto &e : before)
                    if (!all.cfg[(std::size_t)e.model].mealy) a.push_back(ev_str(e));
                before.clear();
                for (auto &e : f.w.obs)
                    if (e.type == E_LOUT) {
                        before.push_back(e);
                        if (!all.cfg[(std::size_t)e.model].mealy) b.push_back(ev_str(e));
                    }
                std::sort(a.begin(), a.end());
                std::sort(b.begin(), b.end());
                if (f.next == at && f.ahead) VCHECK(a == b, "output-republished", "federate ", i, " published other outputs the second time");
                if (f.next != at) VCHECK(b.empty(), "output-early", "federate ", i, " published the output of a later event");
            }
            for (auto &e : before) out.push_back(ev_str(e));
            VCHECK(r == ret, "current-time", "federate ", i, " is at ", r, " and not ", ret);
            Cycle cy;
            cy.t = at;
            cy.in = f.in;
            cy.trans = transitions(f.w.obs);
            got.insert(got.end(), cy.trans.begin(), cy.trans.end());
            f.log.push_back(cy);
            for (auto &s : cy.trans) {
                c.log(s.c_str());
                VNOTE("  F", i, ": ", s);
            }
        }
        ref.compute_state({});
        std::vector<std::string> want, wout;
        for (auto &e : ref.trans) want.push_back(ev_str(e));
        for (std::size_t m = 0; m < ref.out.size(); m++)
            for (auto &y : ref.out[m]) {
                Ev e;
                e.type = E_LOUT;
                e.listener = 0;
                e.model = (int)m;
                e.pin = y.first;
                e.val = y.second;
                e.t = at;
                wout.push_back(ev_str(e));
            }
        std::sort(want.begin(), want.end());
        std::sort(got.begin(), got.end());
        std::sort(out.begin(), out.end());
        std::sort(wout.begin(), wout.end());
        auto show = [](std::vector<std::string> const &v) {
            std::string s;
            for (std::size_t i = 0; i < v.size() && i < 8; i++) s += v[i] + "; ";
            return s;
        };
        VCHECK(want == got, "federation-differs", "at ", at, " the whole makes [", show(want), "] but the federates make [", show(got), "]");
        VCHECK(out == wout, "federation-output", "at ", at, " the whole outputs [", show(wout), "] but the federates output [", show(out), "]");
        now = ret;
        c.count("rounds");
        c.state(mix(got.size(), out.size(), order.size(), (u64)F));
        return true;
    }
    RT now;

    void run() {
        generate();
        Pool::reset(all.place_seed, 512);
        for (auto &f : feds) boot(*f);
        now = RT(0, 0);
        int steps = c.range(2, 30);
        for (int i = 0; i < steps; i++)
            if (!round()) break;
        c.sim_time += (double)now.t * 0.125;
        c.feature("federation");
    }
};

void federation_run(Ctx &c) {
    Federation f(c);
    f.run();
}
}  // namespace net

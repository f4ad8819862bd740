#include "net.hpp"

namespace net {

std::string ev_str(Ev const &e) {
    switch (e.type) {
        case E_OUTCALL: return cat("m", e.model, ".output_func");
        case E_TRANS:
            return cat("m", e.model, ".delta_", kind_str(e.kind),
                       e.kind == K_EXT ? cat("(e=", e.t, ")") : std::string(), bag_str(e.bag));
        case E_LOUT: return cat("L", e.listener, ":output m", e.model, " p", e.pin, "=", e.val, "@", e.t);
        case E_LIN: return cat("L", e.listener, ":input m", e.model, " p", e.pin, "=", e.val, "@", e.t);
        case E_LST: return cat("L", e.listener, ":state m", e.model, "@", e.t);
        case E_OP: return cat("m", e.model, " requests ", op_str(e.op));
    }
    return "?";
}

// ---- RefStruct --------------------------------------------------------------
bool RefStruct::attached(int c) const { return reaches(0, c); }

void RefStruct::flatten() {
    if (coupled) {
        present.clear();
        std::set<std::pair<int, int>> fpa, fpp;
        std::set<int> seen;
        std::vector<int> todo{0};
        while (!todo.empty()) {
            int c = todo.back();
            todo.pop_back();
            if (!seen.insert(c).second) continue;
            auto &nd = nodes[(std::size_t)c];
            present.insert(nd.atoms.begin(), nd.atoms.end());
            fpa.insert(nd.pa.begin(), nd.pa.end());
            fpp.insert(nd.pp.begin(), nd.pp.end());
            for (int s : nd.subs) todo.push_back(s);
        }
        to_models.clear();
        to_pins.clear();
        for (auto &x : fpa) to_models[x.first].push_back(x.second);
        for (auto &x : fpp) to_pins[x.first].push_back(x.second);
    } else {
        present.clear();
        for (auto &x : atoms) present.insert(x.first);
        to_models.clear();
        to_pins.clear();
        for (auto &x : pa) to_models[x.first.first].push_back(x.first.second);
        for (auto &x : pp) to_pins[x.first.first].push_back(x.first.second);
    }
}

static void dec(std::map<std::pair<int, int>, int> &m, std::pair<int, int> k) {
    auto i = m.find(k);
    if (i != m.end() && --i->second == 0) m.erase(i);
}

void RefStruct::apply(GOp const &o) {
    if (coupled) {
        Node &nd = nodes[(std::size_t)o.c];
        switch (o.type) {
            case ADD: nd.atoms.insert(o.m); break;
            case REM:
                nd.atoms.erase(o.m);
                for (auto i = nd.pa.begin(); i != nd.pa.end();)
                    i = i->second == o.m ? nd.pa.erase(i) : std::next(i);
                break;
            case CPP: nd.pp.insert({o.p, o.q}); break;
            case DPP: nd.pp.erase({o.p, o.q}); break;
            case CPA: nd.pa.insert({o.p, o.m}); break;
            case DPA: nd.pa.erase({o.p, o.m}); break;
            case ADDC: nd.subs.insert(o.c2); break;
            case REMC: nd.subs.erase(o.c2); break;
            default: break;
        }
    } else {
        switch (o.type) {
            case ADD: atoms[o.m]++; break;
            case REM:
                if (atoms.count(o.m) != 0 && --atoms[o.m] == 0) {
                    atoms.erase(o.m);
                    for (auto i = pa.begin(); i != pa.end();)
                        i = i->first.second == o.m ? pa.erase(i) : std::next(i);
                }
                break;
            case RPIN: {
                std::vector<std::pair<int, int>> k;
                for (auto &x : pa)
                    if (x.first.first == o.p) k.push_back(x.first);
                for (auto &x : k) dec(pa, x);
                k.clear();
                for (auto &x : pp)
                    if (x.first.first == o.p || x.first.second == o.p) k.push_back(x.first);
                for (auto &x : k) dec(pp, x);
                break;
            }
            case CPP: pp[{o.p, o.q}]++; break;
            case DPP: dec(pp, {o.p, o.q}); break;
            case CPA: pa[{o.p, o.m}]++; break;
            case DPA: dec(pa, {o.p, o.m}); break;
            default: break;
        }
    }
    flatten();
}

// ---- World ------------------------------------------------------------------
RT World::ta_of(int m, u64 s, int n) const {
    MCfg const &c = cfg[(std::size_t)m];
    u64 h = mix(s, 101, (u64)m);
    int r = (int)(h % 100);
    (void)n;
    if (r < c.ta_inf) return RT::infinity();
    if (r < c.ta_inf + c.ta_zero) return sd ? RT(0, (int)((h >> 20) % 3)) : RT(0, 0);
    long t = 1 + (long)((h >> 8) % (u64)c.ta_max);
    return RT(t, sd ? (int)((h >> 30) % 3) : 0);
}

void World::outputs_of(int m, u64 s, int kind, RT e, Bag const &b, Bag &out) const {
    MCfg const &c = cfg[(std::size_t)m];
    u64 h = mix(mix(s, 202, (u64)m), mix((u64)kind, e.hash()), bag_hash(b));
    for (std::size_t i = 0; i < c.opins.size(); i++) {
        u64 x = mix(h, i);
        if (c.always_out || (int)(x % 100) < c.out_pct) {
            out.emplace_back(c.opins[i], (long)((x >> 12) % 50));
            if ((x >> 40) % 6 == 0) out.emplace_back(c.opins[i], (long)((x >> 20) % 50));
        }
    }
}

bool World::scripted_op(int m, u64 s, GOp &op) const {
    MCfg const &c = cfg[(std::size_t)m];
    if (c.op_pct == 0) return false;
    u64 h = mix(s, 303, (u64)m);
    if ((int)(h % 100) >= c.op_pct) return false;
    u64 n = 0;
    return random_op([&](u32 b) { return (u32)(mix(h, ++n) % b); }, op);
}

// A structure change that is valid in the structure as it will be when all
// queued changes have been made.
bool World::random_op(std::function<u32(u32)> draw, GOp &op) const {
    return random_op1(draw, op) && !(op.m >= 0 && is_gone(op.m));
}
bool World::random_op1(std::function<u32(u32)> &draw, GOp &op) const {
    int M = (int)cfg.size();
    for (int tries = 0; tries < 6; tries++) {
        op = GOp();
        OpType t = (OpType)draw(9);
        if (!((op_mask >> t) & 1)) continue;
        op.type = t;
        if (coupled) {
            op.c = (int)draw((u32)nodes);
            auto &nd = pview.nodes[(std::size_t)op.c];
            // Now and then something that is there is added again, or
            // something that is not there (but may be elsewhere) is removed.
            bool redundant = draw(8) == 7;
            switch (t) {
                case ADD:
                    op.m = (int)draw((u32)M);
                    if ((nd.atoms.count(op.m) && !redundant) || is_gone(op.m)) continue;
                    return true;
                case REM:
                    if (redundant) {
                        op.m = (int)draw((u32)M);
                        if (is_gone(op.m)) continue;
                        return true;
                    }
                    if (nd.atoms.empty()) continue;
                    op.m = *std::next(nd.atoms.begin(), draw((u32)nd.atoms.size()));
                    return true;
                case CPP:
                    op.p = (int)draw((u32)pins);
                    op.q = (int)draw((u32)pins);
                    if (redundant && !nd.pp.empty()) {
                        auto x = *std::next(nd.pp.begin(), draw((u32)nd.pp.size()));
                        op.p = x.first;
                        op.q = x.second;
                        return true;
                    }
                    if (op.p >= op.q || nd.pp.count({op.p, op.q})) continue;
                    return true;
                case DPP: {
                    // an edge that another coupled model may have
                    auto &from = redundant ? pview.nodes[(std::size_t)draw((u32)nodes)] : nd;
                    if (from.pp.empty()) continue;
                    auto x = *std::next(from.pp.begin(), draw((u32)from.pp.size()));
                    op.p = x.first;
                    op.q = x.second;
                    return true;
                }
                case CPA:
                    if (redundant && !nd.pa.empty()) {
                        auto x = *std::next(nd.pa.begin(), draw((u32)nd.pa.size()));
                        op.p = x.first;
                        op.m = x.second;
                        return true;
                    }
                    if (nd.atoms.empty()) continue;
                    op.m = *std::next(nd.atoms.begin(), draw((u32)nd.atoms.size()));
                    op.p = (int)draw((u32)pins);
                    if (!valid_pa(op.p, op.m) || nd.pa.count({op.p, op.m})) continue;
                    return true;
                case DPA: {
                    auto &from = redundant ? pview.nodes[(std::size_t)draw((u32)nodes)] : nd;
                    if (from.pa.empty()) continue;
                    auto x = *std::next(from.pa.begin(), draw((u32)from.pa.size()));
                    op.p = x.first;
                    op.m = x.second;
                    return true;
                }
                case ADDC:
                    if (nodes < 2) continue;
                    op.c2 = 1 + (int)draw((u32)(nodes - 1));
                    if (op.c2 <= op.c) continue;
                    if (nd.subs.count(op.c2)) {
                        if (!redundant) continue;
                        return true;
                    }
                    if (!multi_parent && pview.parents(op.c2) > 0) continue;
                    return true;
                case REMC:
                    if (redundant && nodes >= 2) {
                        op.c2 = 1 + (int)draw((u32)(nodes - 1));
                        if (op.c2 <= op.c) continue;
                        return true;
                    }
                    if (nd.subs.empty()) continue;
                    op.c2 = *std::next(nd.subs.begin(), draw((u32)nd.subs.size()));
                    return true;
                default: continue;
            }
        } else {
            switch (t) {
                case ADD:
                    op.m = (int)draw((u32)M);
                    if (is_gone(op.m)) continue;
                    return true;
                case REM:
                    if (pview.present.empty()) continue;
                    op.m = *std::next(pview.present.begin(), draw((u32)pview.present.size()));
                    return true;
                case RPIN: op.p = (int)draw((u32)pins); return true;
                case CPP:
                    op.p = (int)draw((u32)pins);
                    op.q = (int)draw((u32)pins);
                    if (op.p >= op.q) continue;
                    return true;
                case DPP: {
                    // now and then an edge that does not exist
                    if (pview.pp.empty() || draw(8) == 7) {
                        op.p = (int)draw((u32)pins);
                        op.q = (int)draw((u32)pins);
                        if (op.p >= op.q) continue;
                        return true;
                    }
                    auto x = *std::next(pview.pp.begin(), draw((u32)pview.pp.size()));
                    op.p = x.first.first;
                    op.q = x.first.second;
                    return true;
                }
                case CPA:
                    if (pview.present.empty()) continue;
                    op.m = *std::next(pview.present.begin(), draw((u32)pview.present.size()));
                    op.p = (int)draw((u32)pins);
                    if (!valid_pa(op.p, op.m)) continue;
                    return true;
                case DPA: {
                    if (pview.pa.empty()) continue;
                    auto x = *std::next(pview.pa.begin(), draw((u32)pview.pa.size()));
                    op.p = x.first.first;
                    op.m = x.first.second;
                    return true;
                }
                default: continue;
            }
        }
    }
    return false;
}

void World::request(GOp const &op) {
    pview.apply(op);
    queued.push_back(op);
    real->op(op);
}

// ---- Ref --------------------------------------------------------------------
void Ref::init() {
    std::size_t M = w->cfg.size();
    g = RefStruct();
    g.coupled = w->coupled;
    g.nodes.resize((std::size_t)w->nodes);
    s.resize(M);
    n.assign(M, 0);
    tL.assign(M, RT());
    tN.assign(M, RT::infinity());
    for (std::size_t i = 0; i < M; i++) s[i] = w->cfg[i].s0;
    for (auto &o : w->initial) g.apply(o);
    g.flatten();
    neg.clear();
    for (int m : g.present) schedule(m, RT(0, 0));
    tNext = min_tN();
    injected.clear();
}

void Ref::schedule(int m, RT t) {
    std::size_t i = (std::size_t)m;
    tL[i] = t;
    if (w->neg_ta(m, n[i])) neg.insert(m);
    tN[i] = rt_add(t, w->ta_of(m, s[i], n[i]));
}

RT Ref::min_tN() const {
    RT best = RT::infinity();
    for (int m : g.present)
        if (tN[(std::size_t)m] < best) best = tN[(std::size_t)m];
    return best;
}

void Ref::restart() {
    for (int m : g.present) schedule(m, RT(0, 0));
    tNext = min_tN();
    injected.clear();
}

void Ref::compute_output() {
    std::size_t M = w->cfg.size();
    bag.assign(M, Bag());
    out.assign(M, Bag());
    imm.assign(M, 0);
    outcalls.clear();
    booms.clear();
    std::vector<std::pair<int, int>> dst;
    auto deliver = [&](int pin, long val) {
        dst.clear();
        g.route(pin, dst);
        for (auto &d : dst) bag[(std::size_t)d.second].emplace_back(d.first, val);
    };
    for (auto &x : injected) deliver(x.first, x.second);
    injected.clear();
    std::vector<std::pair<int, int>> mealy;  // (cut, model)
    for (int m : g.present) {
        std::size_t i = (std::size_t)m;
        imm[i] = !tNext.inf() && tN[i] == tNext;
        if (w->cfg[i].mealy) {
            mealy.emplace_back(w->cfg[i].cut, m);
        } else if (imm[i]) {
            outcalls.push_back(m);
            if (w->boom(m, n[i], 1)) booms.insert(m);
            w->outputs_of(m, s[i], K_INT, RT(), Bag(), out[i]);
        }
    }
    for (std::size_t i = 0; i < M; i++)
        for (auto &y : out[i]) deliver(y.first, y.second);
    // The cuts order the Mealy models so that none can influence another
    // with the same or a smaller cut.
    std::sort(mealy.begin(), mealy.end());
    for (auto &x : mealy) {
        std::size_t i = (std::size_t)x.second;
        std::sort(bag[i].begin(), bag[i].end());
        if (bag[i].empty() && !imm[i]) continue;
        if (bag[i].empty())
            w->outputs_of(x.second, s[i], K_INT, RT(), bag[i], out[i]);
        else if (imm[i])
            w->outputs_of(x.second, s[i], K_CONF, RT(), bag[i], out[i]);
        else
            w->outputs_of(x.second, s[i], K_EXT, rt_sub(tNext, tL[i]), bag[i], out[i]);
        for (auto &y : out[i]) deliver(y.first, y.second);
    }
    for (auto &b : bag) std::sort(b.begin(), b.end());
    std::sort(outcalls.begin(), outcalls.end());
}

RT Ref::compute_state(std::vector<GOp> const &ops) {
    RT now = rt_add(tNext, eps());
    trans.clear();
    neg.clear();
    booms.clear();
    std::vector<int> todo;
    for (int m : g.present) {
        std::size_t i = (std::size_t)m;
        if (!imm[i] && bag[i].empty()) continue;
        todo.push_back(m);
    }
    for (int m : todo) {
        std::size_t i = (std::size_t)m;
        Ev e;
        e.type = E_TRANS;
        e.model = m;
        e.kind = bag[i].empty() ? K_INT : (imm[i] ? K_CONF : K_EXT);
        if (e.kind == K_EXT) e.t = rt_sub(tNext, tL[i]);
        e.bag = bag[i];
        trans.push_back(e);
        if (w->boom(m, n[i], 0)) booms.insert(m);
        s[i] = w->next_state(m, s[i], e.kind, e.t, e.bag);
        n[i]++;
        schedule(m, now);
    }
    for (auto &o : ops) {
        auto before = g.present;
        g.apply(o);
        for (int m : before)
            if (!g.has(m)) tN[(std::size_t)m] = RT::infinity();
        for (int m : g.present)
            if (!before.count(m)) schedule(m, now);
    }
    tNext = min_tN();
    return now;
}

}  // namespace net

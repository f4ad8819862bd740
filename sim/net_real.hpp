// The real code under test: adevs models, graph, coupled models and
// simulator, behind the type-erased interface of net.hpp.
#ifndef VSIM_NET_REAL_HPP
#define VSIM_NET_REAL_HPP
#include <any>
#include <cmath>
#include "adevs/adevs.h"
#include "net.hpp"

namespace net {

// ---- Time types -------------------------------------------------------------
constexpr double unit = 0.125;

template <typename T>
struct RealTime {  // float, double, long double: exact multiples of the unit
    static constexpr bool sd = false;
    static T make(RT r, u64) { return r.inf() ? adevs_inf<T>() : (T)r.t * ((T)unit * (T)time_scale()); }
    static T negative(u64 h) {
        switch (h % 4) {
            case 0: return (T)-1e-30;  // lost when it is added to a time
            case 1: return -std::numeric_limits<T>::denorm_min();
            case 2: return -adevs_inf<T>();
            default: return (T)-2 * (T)unit;
        }
    }
    static RT back(T const &x) {
        if (x == adevs_inf<T>()) return RT::infinity();
        T y = x / ((T)unit * (T)time_scale());
        if (!(y > (T)-1e15 && y < (T)1e15)) return RT(-999999, -999);
        long r = (long)std::llround((long double)y);
        return (T)r == y ? RT(r) : RT(r, -999);
    }
};
template <typename T>
struct IntTime {
    static constexpr bool sd = false;
    // The wide type reaches far beyond the narrow one
    static T scale() { return sizeof(T) < 8 || time_scale() < 1.0 ? 1 : (T)time_scale(); }
    static T make(RT r, u64) { return r.inf() ? adevs_inf<T>() : (T)r.t * scale(); }
    static T negative(u64 h) { return h % 2 ? -1 : -2000; }
    static RT back(T const &x) {
        if (x == adevs_inf<T>()) return RT::infinity();
        return x % scale() == 0 ? RT((long)(x / scale())) : RT((long)(x / scale()), -999);
    }
};
struct FcmpTime {  // equality within a tolerance: times carry a jitter far below it
    static constexpr bool sd = false;
    static adevs::double_fcmp make(RT r, u64 h) {
        if (r.inf()) return adevs_inf<adevs::double_fcmp>();
        if (r.t == 0) return adevs::double_fcmp(0.0);
        return adevs::double_fcmp((double)r.t * unit + ((double)(h % 7) - 3.0) * 1e-11);
    }
    static adevs::double_fcmp negative(u64 h) { return adevs::double_fcmp(h % 2 ? -0.25 : -1e9); }
    static RT back(adevs::double_fcmp const &x) {
        adevs::double_fcmp y(x);
        double d = (double)y;
        if (d == std::numeric_limits<double>::max()) return RT::infinity();
        double z = d / unit;
        if (!(std::fabs(z) < 1e15)) return RT(-999999, -999);
        long r = std::lround(z);
        return std::fabs(z - (double)r) < 1e-6 ? RT(r) : RT(r, -999);
    }
};
template <typename X>
struct SdTime {
    static constexpr bool sd = true;
    using T = adevs::sd_time<X>;
    static double scale() {
        if (std::is_floating_point<X>::value) return unit * time_scale();
        return sizeof(X) < 8 || time_scale() < 1.0 ? 1.0 : time_scale();
    }
    static T make(RT r, u64) {
        if (r.inf()) return adevs_inf<T>();
        return T((X)((double)r.t * scale()), r.k);
    }
    static T negative(u64 h) {
        switch (h % 3) {
            case 0: return T((X)0, -1);
            case 1: return T((X)-1, 5);
            default: return std::is_floating_point<X>::value ? T((X)-1e-30, 0) : T((X)-2, 0);
        }
    }
    static RT back(T const &x) {
        if (x == adevs_inf<T>()) return RT::infinity();
        double y = (double)x.real() / scale();
        if (!(std::fabs(y) < 1e15)) return RT(-999999, -999);
        long r = std::lround(y);
        return (double)r == y ? RT(r, (int)x.integer()) : RT(r, -999);
    }
};
template <typename T> struct TT : RealTime<T> {};
template <> struct TT<int> : IntTime<int> {};
template <> struct TT<long> : IntTime<long> {};
template <> struct TT<adevs::double_fcmp> : FcmpTime {};
template <typename X> struct TT<adevs::sd_time<X>> : SdTime<X> {};

// ---- Value types ------------------------------------------------------------
template <typename V>
struct VT {
    static V make(long v) { return (V)v; }
    static long back(V const &v) { return (long)v; }
};
template <>
struct VT<std::any> {
    static std::any make(long v) { return std::any(v); }
    static long back(std::any const &v) {
        long const* p = std::any_cast<long>(&v);
        return p == nullptr ? -777 : *p;
    }
};
template <>
struct VT<std::shared_ptr<long>> {
    static std::shared_ptr<long> make(long v) { return std::make_shared<long>(v); }
    static long back(std::shared_ptr<long> const &v) { return v ? *v : -777; }
};

template <typename V, typename T>
struct Real;

// Scripted model: all of its behaviour is decided by the World's functions.
template <typename V, typename T>
struct Body {
    Real<V, T>* r;
    int id;
    u64 s;
    int n = 0;
    Body(Real<V, T>* r, int id, u64 s) : r(r), id(id), s(s) {}
    ~Body();
    void trans(int kind, T const* e, std::list<adevs::PinValue<V>> const* xb);
    void output(int kind, T const* e, std::list<adevs::PinValue<V>> const* xb,
                std::list<adevs::PinValue<V>> &yb);
    T ta();
};

template <typename V, typename T>
struct MooreM : adevs::Atomic<V, T> {
    Body<V, T> b;
    MooreM(Real<V, T>* r, int id, u64 s) : b(r, id, s) {}
    static void* operator new(std::size_t n) { return vsim::Pool::alloc(n); }
    static void operator delete(void* p) { vsim::Pool::release(p); }
    void delta_int() { b.trans(K_INT, nullptr, nullptr); }
    void delta_ext(T e, std::list<adevs::PinValue<V>> const &xb) { b.trans(K_EXT, &e, &xb); }
    void delta_conf(std::list<adevs::PinValue<V>> const &xb) { b.trans(K_CONF, nullptr, &xb); }
    void output_func(std::list<adevs::PinValue<V>> &yb) { b.output(-1, nullptr, nullptr, yb); }
    T ta() { return b.ta(); }
};
template <typename V, typename T>
struct MealyM : adevs::MealyAtomic<V, T> {
    Body<V, T> b;
    MealyM(Real<V, T>* r, int id, u64 s) : b(r, id, s) {}
    static void* operator new(std::size_t n) { return vsim::Pool::alloc(n); }
    static void operator delete(void* p) { vsim::Pool::release(p); }
    void delta_int() { b.trans(K_INT, nullptr, nullptr); }
    void delta_ext(T e, std::list<adevs::PinValue<V>> const &xb) { b.trans(K_EXT, &e, &xb); }
    void delta_conf(std::list<adevs::PinValue<V>> const &xb) { b.trans(K_CONF, nullptr, &xb); }
    void output_func(std::list<adevs::PinValue<V>> &yb) { b.output(K_INT, nullptr, nullptr, yb); }
    void external_output_func(T e, std::list<adevs::PinValue<V>> const &xb,
                              std::list<adevs::PinValue<V>> &yb) {
        b.output(K_EXT, &e, &xb, yb);
    }
    void confluent_output_func(std::list<adevs::PinValue<V>> const &xb,
                               std::list<adevs::PinValue<V>> &yb) {
        b.output(K_CONF, nullptr, &xb, yb);
    }
    T ta() { return b.ta(); }
};

template <typename V, typename T>
struct CoupledM : adevs::Coupled<V, T> {
    static void* operator new(std::size_t n) { return vsim::Pool::alloc(n); }
    static void operator delete(void* p) { vsim::Pool::release(p); }
};

template <typename V, typename T>
struct Lst : adevs::EventListener<V, T> {
    Real<V, T>* r;
    int id;
    Lst(Real<V, T>* r, int id) : r(r), id(id) {}
    void put(EvType t, adevs::Atomic<V, T> &m, adevs::PinValue<V>* v, T time);
    void outputEvent(adevs::Atomic<V, T> &m, adevs::PinValue<V> &v, T t) { put(E_LOUT, m, &v, t); }
    void inputEvent(adevs::Atomic<V, T> &m, adevs::PinValue<V> &v, T t) { put(E_LIN, m, &v, t); }
    void stateChange(adevs::Atomic<V, T> &m, T t) { put(E_LST, m, nullptr, t); }
};

template <typename V, typename T>
struct Real : IReal {
    using A = adevs::Atomic<V, T>;
    World* w;
    std::vector<adevs::pin_t> pins;
    std::map<adevs::pin_t, int> pin_id;
    std::vector<std::shared_ptr<A>> models;
    std::vector<A*> raw;
    std::map<A*, int> model_id;
    std::vector<std::shared_ptr<adevs::Coupled<V, T>>> nodes;
    std::shared_ptr<adevs::Graph<V, T>> graph;
    std::unique_ptr<adevs::Simulator<V, T>> sim, old;  // old: goes when its successor is there
    // Another simulation, whose models are no part of this one
    struct Ticker : A {
        int n = 0;
        T ta() override { return TT<T>::make(RT(2, 0), 0); }
        void output_func(std::list<adevs::PinValue<V>> &) override {}
        void delta_int() override { n++; }
        void delta_ext(T, std::list<adevs::PinValue<V>> const &) override { n = -1000; }
        void delta_conf(std::list<adevs::PinValue<V>> const &) override { n = -1000; }
    };
    std::vector<std::shared_ptr<Ticker>> tickers;
    std::unique_ptr<adevs::Simulator<V, T>> other;
    int ticks = 0;
    void step_other() {
        if (other == nullptr || ticks >= 30) return;
        other->execNextEvent();
        ticks++;
        for (auto &t : tickers)
            VCHECK(t->n == ticks, "other-simulation", "a model of another simulation, which this one was asked to remove, has made ",
                   t->n, " transitions, its simulation has had ", ticks, " cycles");
    }
    T cur = adevs_zero<T>();

    RT rt(T const &t) const {
        RT r = TT<T>::back(t);
        if (w->drop_k) r.k = 0;
        return r;
    }

    explicit Real(World* w) : w(w) {}
    ~Real() override { drop_sim(); }

    int pin_of(adevs::pin_t const &p) const {
        auto i = pin_id.find(p);
        return i == pin_id.end() ? -5 : i->second;
    }
    void bag_of(std::list<adevs::PinValue<V>> const &xb, Bag &b) const {
        for (auto const &x : xb) b.emplace_back(pin_of(x.pin), VT<V>::back(x.value));
        std::sort(b.begin(), b.end());
    }

    void* pin_store() override { return &pins; }
    void build() override {
        // The order in which pins and models come into being is chosen by
        // the placement seed, and with it the order of their identities.
        int M = (int)w->cfg.size();
        std::vector<int> order((std::size_t)w->pins);
        for (std::size_t i = 0; i < order.size(); i++) order[i] = (int)i;
        u64 h = w->place_seed;
        auto shuffle = [&](std::vector<int> &v) {
            if (w->place_seed == 0) return;
            for (std::size_t i = v.size(); i > 1; i--) {
                h = mix(h, i);
                std::swap(v[i - 1], v[(std::size_t)(h % i)]);
            }
        };
        shuffle(order);
        pins.clear();
        std::map<int, adevs::pin_t> made;
        for (int i : order) made.emplace(i, adevs::pin_t());
        if (w->pins_from != nullptr) {
            auto &p = *(std::vector<adevs::pin_t>*)w->pins_from->pin_store();
            for (std::size_t i = 0; i < p.size() && i < order.size(); i++) made.at((int)i) = p[i];
        }
        for (int i = 0; i < w->pins; i++) {
            pins.push_back(made.at(i));
            pin_id[made.at(i)] = i;
        }
        models.resize((std::size_t)M);
        raw.resize((std::size_t)M);
        for (int i = 0; i < M; i++) {
            auto &c = w->cfg[(std::size_t)i];
            if (c.mealy)
                models[(std::size_t)i] = std::shared_ptr<A>(new MealyM<V, T>(this, i, c.s0));
            else
                models[(std::size_t)i] = std::shared_ptr<A>(new MooreM<V, T>(this, i, c.s0));
            raw[(std::size_t)i] = models[(std::size_t)i].get();
            model_id[models[(std::size_t)i].get()] = i;
        }
        if (w->coupled) {
            for (int i = 0; i < w->nodes; i++)
                nodes.push_back(std::shared_ptr<adevs::Coupled<V, T>>(new CoupledM<V, T>));
        } else if (!w->atomic_only) {
            graph = std::make_shared<adevs::Graph<V, T>>();
        }
        for (auto &o : w->initial) op(o);
    }
    void start() override {
        vsim::AllocLoud L;
        cur = adevs_zero<T>();
        if (w->elsewhere == 1 && old == nullptr) {
            auto g = std::make_shared<adevs::Graph<V, T>>();
            for (auto &m : models)
                if (m != nullptr) g->add_atomic(m);
            adevs::Simulator<V, T> s(g);
        }
        if (w->elsewhere == 2 && other == nullptr) {
            auto g = std::make_shared<adevs::Graph<V, T>>();
            for (int i = 0; i < 3; i++) {
                tickers.push_back(std::make_shared<Ticker>());
                g->add_atomic(tickers.back());
            }
            other.reset(new adevs::Simulator<V, T>(g));
        }
        if (w->atomic_only)
            sim.reset(new adevs::Simulator<V, T>(models[(std::size_t)w->initial[0].m]));
        else if (w->coupled)
            sim.reset(new adevs::Simulator<V, T>(nodes[0]));
        else
            sim.reset(new adevs::Simulator<V, T>(graph));
        for (int i = 0; i < w->listeners; i++)
            sim->addEventListener(std::make_shared<Lst<V, T>>(this, i));
        old.reset();
    }
    void add_listener(int i) override {
        vsim::AllocLoud L;
        sim->addEventListener(std::make_shared<Lst<V, T>>(this, i));
    }
    RT next() override { vsim::AllocLoud L; return rt(sim->nextEventTime()); }
    RT exec() override {
        vsim::AllocLoud L;
        cur = sim->execNextEvent();
        step_other();
        return rt(cur);
    }
    void compute_output() override { vsim::AllocLoud L; sim->computeNextOutput(); }
    RT compute_state() override {
        vsim::AllocLoud L;
        cur = sim->computeNextState();
        step_other();
        return rt(cur);
    }
    void set_next(RT t) override {
        if (w->drop_k && rt(cur) == t) sim->setNextTime(cur);
        else sim->setNextTime(TT<T>::make(t, (u64)t.t * 3 + 1));
    }
    void inject(int pin, long val) override {
        adevs::PinValue<V> x(pins[(std::size_t)pin], VT<V>::make(val));
        vsim::AllocLoud L;
        sim->injectInput(x);
    }
    void clear_injected() override { vsim::AllocLoud L; sim->clearInjectedInput(); }
    void op(GOp const &o) override {
        if (w->atomic_only) return;
        vsim::AllocLoud L;
        auto P = [&](int i) -> adevs::pin_t & { return pins[(std::size_t)i]; };
        auto M = [&](int i) -> std::shared_ptr<A> & { return models[(std::size_t)i]; };
        if (w->coupled) {
            auto &c = nodes[(std::size_t)o.c];
            switch (o.type) {
                case ADD: c->add_atomic(M(o.m)); break;
                case REM: c->remove_atomic(M(o.m)); break;
                case CPP: c->create_coupling(P(o.p), P(o.q)); break;
                case DPP: c->remove_coupling(P(o.p), P(o.q)); break;
                case CPA: c->create_coupling(P(o.p), M(o.m)); break;
                case DPA: c->remove_coupling(P(o.p), M(o.m)); break;
                case ADDC: c->add_coupled_model(nodes[(std::size_t)o.c2]); break;
                case REMC: c->remove_coupled_model(nodes[(std::size_t)o.c2]); break;
                default: break;
            }
            return;
        }
        switch (o.type) {
            case ADD: graph->add_atomic(M(o.m)); break;
            case REM:
                graph->remove_atomic(M(o.m));
                if (other != nullptr) graph->remove_atomic(tickers[(std::size_t)o.m % tickers.size()]);
                break;
            case RPIN: graph->remove_pin(P(o.p)); break;
            case CPP: graph->connect(P(o.p), P(o.q)); break;
            case DPP: graph->disconnect(P(o.p), P(o.q)); break;
            case CPA: graph->connect(P(o.p), M(o.m)); break;
            case DPA: graph->disconnect(P(o.p), M(o.m)); break;
            default: break;
        }
    }
    void drop_model(int m) override { models[(std::size_t)m].reset(); }
    void stop(bool later) override {
        vsim::AllocLoud L;
        if (later) old = std::move(sim);
        else sim.reset();
    }
    void drop_sim(int order = 0) override {
        if (order & 1) models.clear();
        if (order & 2) graph.reset();
        if (order & 4) nodes.clear();
        other.reset();
        tickers.clear();
        old.reset();
        sim.reset();
        graph.reset();
        nodes.clear();
        models.clear();
    }
    bool same_model(int m, void* who) override {
        return who == (void*)raw[(std::size_t)m];
    }
    std::set<int> members() override {
        std::set<int> s;
        if (graph)
            for (auto &a : graph->get_atomics()) {
                auto i = model_id.find(a.get());
                s.insert(i == model_id.end() ? -1 : i->second);
            }
        return s;
    }
    std::vector<std::pair<int, int>> route(int pin) override {
        std::list<std::pair<adevs::pin_t, std::shared_ptr<A>>> l;
        {
            vsim::AllocLoud L;
            graph->route(pins[(std::size_t)pin], l);
        }
        std::vector<std::pair<int, int>> r;
        for (auto &x : l) {
            auto i = model_id.find(x.second.get());
            r.emplace_back(pin_of(x.first), i == model_id.end() ? -1 : i->second);
        }
        return r;
    }
    void set_provisional(bool p) override { graph->set_provisional(p); }
    std::size_t pending() override { return graph->get_pending().size(); }
    std::vector<GOp> pending_ops() override {
        using G = adevs::Graph<V, T>;
        std::vector<GOp> r;
        for (auto &o : graph->get_pending()) {
            GOp x;
            if (o.model) {
                auto i = model_id.find(o.model.get());
                x.m = i == model_id.end() ? -5 : i->second;
            }
            switch (o.op) {
                case G::ADD_ATOMIC: x.type = ADD; break;
                case G::REMOVE_ATOMIC: x.type = REM; break;
                case G::REMOVE_PIN: x.type = RPIN; x.p = pin_of(o.pin[0]); break;
                case G::CONNECT_PIN_TO_PIN: x.type = CPP; x.p = pin_of(o.pin[0]); x.q = pin_of(o.pin[1]); break;
                case G::DISCONNECT_PIN_FROM_PIN: x.type = DPP; x.p = pin_of(o.pin[0]); x.q = pin_of(o.pin[1]); break;
                case G::CONNECT_PIN_TO_ATOMIC: x.type = CPA; x.p = pin_of(o.pin[0]); break;
                case G::DISCONNECT_PIN_FROM_ATOMIC: x.type = DPA; x.p = pin_of(o.pin[0]); break;
            }
            r.push_back(x);
        }
        return r;
    }
    void commit(int n) override {
        // As documented for get_pending()
        using G = adevs::Graph<V, T>;
        vsim::AllocLoud L;
        graph->set_provisional(false);
        auto &l = graph->get_pending();
        while (!l.empty() && n-- > 0) {
            auto o = l.front();
            l.pop_front();
            switch (o.op) {
                case G::ADD_ATOMIC: graph->add_atomic(o.model); break;
                case G::REMOVE_ATOMIC: graph->remove_atomic(o.model); break;
                case G::REMOVE_PIN: graph->remove_pin(o.pin[0]); break;
                case G::CONNECT_PIN_TO_PIN: graph->connect(o.pin[0], o.pin[1]); break;
                case G::DISCONNECT_PIN_FROM_PIN: graph->disconnect(o.pin[0], o.pin[1]); break;
                case G::CONNECT_PIN_TO_ATOMIC: graph->connect(o.pin[0], o.model); break;
                case G::DISCONNECT_PIN_FROM_ATOMIC: graph->disconnect(o.pin[0], o.model); break;
            }
        }
    }
    char const* time_type() override { return typeid(T).name(); }
};

template <typename V, typename T>
Body<V, T>::~Body() {
    vsim::AllocQuiet q;
    r->w->destroyed.push_back(id);
}

template <typename V, typename T>
T Body<V, T>::ta() {
    vsim::AllocQuiet q;
    ctx->spend();
    if (r->w->pause) r->w->pause();
    if (r->w->neg_ta(id, n)) return TT<T>::negative(s);
    return TT<T>::make(r->w->ta_of(id, s, n), s);
}

template <typename V, typename T>
void Body<V, T>::trans(int kind, T const* e, std::list<adevs::PinValue<V>> const* xb) {
    vsim::AllocQuiet q;
    ctx->spend();
    if (r->w->pause) r->w->pause();
    Ev ev;
    ev.type = E_TRANS;
    ev.model = id;
    ev.kind = kind;
    if (e != nullptr) ev.t = r->rt(*e);
    if (xb != nullptr) r->bag_of(*xb, ev.bag);
    if (r->w->recording) r->w->obs.push_back(ev);
    if (r->w->boom(id, n, 0)) throw Boom{id, s};
    s = r->w->next_state(id, s, kind, ev.t, ev.bag);
    n++;
    GOp o;
    if (r->w->scripted_op(id, s, o)) {
        Ev oe;
        oe.type = E_OP;
        oe.model = id;
        oe.op = o;
        if (r->w->recording) r->w->obs.push_back(oe);
        r->w->request(o);
    }
}

template <typename V, typename T>
void Body<V, T>::output(int kind, T const* e, std::list<adevs::PinValue<V>> const* xb,
                        std::list<adevs::PinValue<V>> &yb) {
    Bag out;
    {
        vsim::AllocQuiet q;
        ctx->spend();
        if (r->w->pause) r->w->pause();
        VCHECK(yb.empty(), "output-list-not-empty", "m", id, " was asked for output with a list that is not empty");
        if (kind < 0) {
            Ev ev;
            ev.type = E_OUTCALL;
            ev.model = id;
            if (r->w->recording) r->w->obs.push_back(ev);
            if (r->w->boom(id, n, 1)) throw Boom{id, s};
            kind = K_INT;
        }
        Bag b;
        RT re;
        if (e != nullptr) re = r->rt(*e);
        if (xb != nullptr) r->bag_of(*xb, b);
        r->w->outputs_of(id, s, kind, re, b, out);
    }
    for (auto &y : out)
        yb.push_back(adevs::PinValue<V>(r->pins[(std::size_t)y.first], VT<V>::make(y.second)));
}

template <typename V, typename T>
void Lst<V, T>::put(EvType type, adevs::Atomic<V, T> &m, adevs::PinValue<V>* v, T time) {
    vsim::AllocQuiet q;
    ctx->spend();
    if (r->w->pause) r->w->pause();
    Ev e;
    e.type = type;
    e.listener = id;
    auto i = r->model_id.find(&m);
    e.model = i == r->model_id.end() ? -5 : i->second;
    e.t = r->rt(time);
    if (v != nullptr) {
        e.pin = r->pin_of(v->pin);
        e.val = VT<V>::back(v->value);
    }
    if (r->w->recording) r->w->obs.push_back(e);
    if (r->w->lboom_at >= 0 && r->w->notified++ == r->w->lboom_at) throw Boom{-1 - id, (u64)r->w->lboom_at};
}

}  // namespace net
#endif

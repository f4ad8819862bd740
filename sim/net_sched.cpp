// The event schedule on its own, against a sorted reference.
#include "net_gen.hpp"
#include "net_real.hpp"

namespace net {
namespace {
template <typename T>
struct Dummy : adevs::Atomic<long, T> {
    int id = 0;
    static void* operator new(std::size_t n) { return vsim::Pool::alloc(n); }
    static void operator delete(void* p) { vsim::Pool::release(p); }
    void delta_int() {}
    void delta_ext(T, std::list<adevs::PinValue<long>> const &) {}
    void delta_conf(std::list<adevs::PinValue<long>> const &) {}
    void output_func(std::list<adevs::PinValue<long>> &) {}
    T ta() { return adevs_inf<T>(); }
};

template <typename T>
void sched_run(vsim::Ctx &c) {
    // The number of models is small most of the time, large now and then
    int M = c.chance(1, 6) ? c.range(60, 700) : c.range(1, 24);
    int span = 1 << c.range(0, 9);
    vsim::Pool::reset(c.below(1000), M + 8);
    std::vector<std::unique_ptr<Dummy<T>>> models((std::size_t)M);
    for (int i = 0; i < M; i++) {
        models[(std::size_t)i].reset(new Dummy<T>);
        models[(std::size_t)i]->id = i;
    }
    int cap = c.chance(1, 2) ? 100 : c.range(0, 40);
    std::unique_ptr<adevs::Schedule<long, T>> q;
    if (cap == 100) q.reset(new adevs::Schedule<long, T>());
    else q.reset(new adevs::Schedule<long, T>((unsigned)cap));
    std::map<int, RT> ref;  // scheduled models
    long base = 0;          // as in a simulation, time moves on
    int steps = M > 40 ? M * 2 + c.range(0, 400) : c.range(1, 160);
    auto when = [&]() { return RT(base + (long)c.below((u32)span), TT<T>::sd ? c.range(0, 2) : 0); };
    auto put = [&](int i, RT t) {
        if (c.tracing) c.note(cat("schedule m", i, " at ", t));
        c.log("put", (u64)i, t.hash());
        q->schedule(models[(std::size_t)i].get(), TT<T>::make(t, (u64)i + (u64)t.t));
        if (t.inf()) ref.erase(i);
        else ref[i] = t;
        c.count("reschedulings");
    };
    for (int s = 0; s < steps; s++) {
        int k = (int)c.below(10);
        if (k < 5) {
            put((int)c.below((u32)M), when());
        } else if (k == 5) {  // leave the schedule
            put((int)c.below((u32)M), RT::infinity());
            c.feature("withdrawn");
        } else if (k == 6 && !ref.empty()) {  // leave from the middle
            put(std::next(ref.begin(), c.below((u32)ref.size()))->first, RT::infinity());
            c.fault("event-withdrawn");
        } else if (k == 7) {  // one of those at the front goes
            RT m = RT::infinity();
            for (auto &x : ref)
                if (x.second < m) m = x.second;
            if (!ref.empty()) {
                auto* a = static_cast<Dummy<T>*>(q->getMinimum());
                VCHECK(a != nullptr && ref.count(a->id) && ref[a->id] == m, "schedule-minimum",
                       "getMinimum() is m", a == nullptr ? -1 : a->id, " which is not due at ", m);
                VNOTE("removeMinimum() with m", a->id, " at the front");
                ref.erase(a->id);
            }
            q->removeMinimum();
            c.feature("remove-minimum");
        } else if (k == 8 && !ref.empty()) {  // the imminent models change state
            RT m = RT::infinity();
            for (auto &x : ref)
                if (x.second < m) m = x.second;
            base = m.t;
            std::vector<int> due;
            for (auto &x : ref)
                if (x.second == m) due.push_back(x.first);
            if (due.size() > 1) c.fault("simultaneous-events");
            for (int i : due) put(i, c.chance(1, 6) ? RT::infinity() : RT(m.t + (long)c.below((u32)span), m.k + 1 * TT<T>::sd));
        } else if (k == 9) {  // a burst of new events at one time
            RT t = when();
            int n = 1 + (int)c.below(12);
            for (int j = 0; j < n; j++) put((int)c.below((u32)M), t);
            c.fault("burst-of-ties");
        }
        // Observe
        RT m = RT::infinity();
        for (auto &x : ref)
            if (x.second < m) m = x.second;
        RT got = TT<T>::back(q->minPriority());
        VCHECK(got == m, "schedule-minimum", "step ", s, ": minPriority() is ", got, " but the earliest event is at ", m);
        VCHECK(q->getSize() == ref.size() && q->empty() == ref.empty(), "schedule-size", "step ", s, ": size ", q->getSize(),
               " with ", ref.size(), " models scheduled");
        std::vector<int> want, have;
        for (auto &x : ref)
            if (x.second == m) want.push_back(x.first);
        for (auto* a : q->visitImminent()) have.push_back(a == nullptr ? -1 : static_cast<Dummy<T>*>(a)->id);
        std::sort(have.begin(), have.end());
        VCHECK(want == have, "schedule-imminent", "step ", s, ": ", have.size(), " imminent models reported, ", want.size(),
               " are due at ", m);
        if (M <= 24) {
            u64 h = 3;
            for (auto &x : ref) h = mix(h, (u64)x.first, (u64)(x.second.t - base));
            c.state(h);
        }
    }
    if (ref.size() > 1) c.nontrivial = true;
    c.sim_time += (double)base * 0.125;
    q.reset();
}
}  // namespace

void schedule_run(vsim::Ctx &c) {
    switch (c.below(6)) {
        case 1: return sched_run<int>(c);
        case 2: return sched_run<float>(c);
        case 3: return sched_run<adevs::sd_time<int>>(c);
        case 4: return sched_run<adevs::sd_time<double>>(c);
        case 5: return sched_run<adevs::double_fcmp>(c);
        default: return sched_run<double>(c);
    }
}

// ---- Laws of the time types ---------------------------------------------------
namespace {
template <typename T>
void sd_laws(vsim::Ctx &c) {
    // A clock, set back and forth by random lengths of time
    auto draw = [&]() {
        long t = c.chance(1, 4) ? 0 : (long)c.below(c.chance(1, 3) ? 4 : 1u << 20);
        int k = c.chance(1, 2) ? 0 : (int)c.below(c.chance(1, 2) ? 3 : 1000);
        return RT(t, k);
    };
    auto M = [](RT r) { return TT<T>::make(r, 0); };
    RT now = draw();
    T x = M(now);
    T const zero = adevs_zero<T>(), eps = adevs_epsilon<T>(), inf = adevs_inf<T>();
    VCHECK(T() == zero && zero < eps && adevs_sentinel<T>() < zero && zero < inf, "sd-constants", "order of the constants");
    int steps = c.range(1, 30);
    for (int i = 0; i < steps; i++) {
        RT d = draw(), o = draw();
        if (c.chance(1, 4)) o = now;
        if (c.chance(1, 6)) o = RT(now.t, (int)c.below(4));
        T y = M(o), z = x + M(d);
        VNOTE("now ", now, " length ", d, " other ", o);
        c.log("sd", now.hash(), d.hash(), o.hash());
        RT want = rt_add(now, d);
        VCHECK(TT<T>::back(z) == want, "sd-add", now, " + ", d, " is ", TT<T>::back(z), " and not ", want);
        T z2 = x;
        z2 += M(d);
        VCHECK(z2 == z && TT<T>::back(z2) == want, "sd-add", now, " += ", d, " differs from +");
        // Lexicographic total order, all operators alike
        int w = o.t != now.t ? (now.t < o.t ? -1 : 1) : (now.k == o.k ? 0 : (now.k < o.k ? -1 : 1));
        bool ok = (x < y) == (w < 0) && (x <= y) == (w <= 0) && (x > y) == (w > 0) && (x >= y) == (w >= 0) &&
                  (x == y) == (w == 0) && (x != y) == (w != 0);
        VCHECK(ok, "sd-order", "comparison of ", now, " and ", o);
        VCHECK(x < inf && !(inf < x) && inf == inf && !(x == inf), "sd-order", now, " against infinity");
        // Length of an interval: going by it arrives at its end
        T lo = w <= 0 ? x : y, hi = w <= 0 ? y : x;
        RT rlo = w <= 0 ? now : o, rhi = w <= 0 ? o : now;
        T len = hi - lo;
        VCHECK(TT<T>::back(len) == rt_sub(rhi, rlo), "sd-sub", rhi, " - ", rlo, " is ", TT<T>::back(len), " and not ", rt_sub(rhi, rlo));
        VCHECK(lo + len == hi, "sd-sub", rlo, " + (", rhi, " - ", rlo, ") is not ", rhi);
        T len2 = hi;
        len2 -= lo;
        VCHECK(len2 == len, "sd-sub", rhi, " -= ", rlo, " differs from -");
        VCHECK(z - x == M(d) || d.t == 0, "sd-sub", "(", now, " + ", d, ") - ", now, " is not ", d);
        // The clock ticks
        VCHECK(x < x + eps && x + zero == x, "sd-epsilon", "next instant after ", now);
        if (c.chance(1, 2)) {
            x = x + eps;
            now.k++;
            c.fault("zero-delay-step");
        } else if (want.t < (1 << 22)) {
            x = z;
            now = want;
            c.fault("clock-advance");
        }
        // As text
        std::stringstream str;
        str.precision(17);
        str << x;
        T back(M(RT(99, 99)));
        str >> back;
        VCHECK(back == x, "sd-text", now, " written and read is ", TT<T>::back(back));
    }
}

void fcmp_laws(vsim::Ctx &c) {
    double const keep = adevs::double_fcmp::epsilon;
    int steps = c.range(1, 40);
    double now = 0.0;
    VCHECK((double)adevs::double_fcmp() == 0.0 && adevs::double_fcmp() == adevs_zero<adevs::double_fcmp>(), "fcmp-arithmetic", "a new time is ",
           (double)adevs::double_fcmp(), " and not zero");
    for (int i = 0; i < steps; i++) {
        double eps = std::ldexp(1.0, -c.range(8, 40));
        adevs::double_fcmp::epsilon = eps;
        double y = now;
        int how = (int)c.below(5);
        // The tolerance is relative to the power of two above the larger value
        int e = 0;
        std::frexp(now, &e);
        double delta = std::ldexp(eps, e);
        double sign = c.chance(1, 2) ? 1.0 : -1.0;
        int want = 0;
        bool decided = true;
        if (how == 0) { y = now + sign * delta * 0.45; decided = now != 0.0; }
        else if (how == 1) { y = now + sign * delta * 2.5; want = now == 0.0 ? 2 : (sign > 0 ? -1 : 1); decided = now != 0.0; }
        else if (how == 2) { y = now; }
        else if (how == 3) { y = (double)c.below(1000) * 0.125; double big = std::max(y, now); int e2; std::frexp(big, &e2);
                             double d2 = std::ldexp(eps, e2), diff = now - y;
                             decided = std::fabs(std::fabs(diff) - d2) > d2 * 0.01;
                             want = diff > d2 ? 1 : (diff < -d2 ? -1 : 0); }
        else { y = std::numeric_limits<double>::max(); want = -1; }
        adevs::double_fcmp a(now), b(y);
        VNOTE("compare ", now, " and ", y, " tolerance ", eps);
        c.log("fcmp", (u64)(now * 8), (u64)how);
        int n = (int)(a < b) + (int)(a == b) + (int)(a > b);
        VCHECK(n == 1, "fcmp-order", "of ", now, " <, ==, > ", y, " exactly one must hold, but ", n, " do");
        VCHECK((a < b) == (b > a) && (a == b) == (b == a) && (a > b) == (b < a), "fcmp-order", "comparison of ", now, " and ", y,
               " depends on the side");
        VCHECK((a <= b) == (a < b || a == b) && (a >= b) == (a > b || a == b), "fcmp-order", "<= or >= of ", now, " and ", y);
        VCHECK((a < y) == (a < b) && (a == y) == (a == b), "fcmp-order", "comparison with a plain number");
        VCHECK((a != b) == !(a == b) && (b != a) == !(b == a) && (a != y) == !(a == y), "fcmp-order", "== and != of ", now, " and ", y);
        if (decided) {
            int got = a < b ? -1 : (a > b ? 1 : 0);
            VCHECK(got == want, "fcmp-tolerance", now, " against ", y, " with tolerance ", eps, " compares ", got, " and not ", want);
        }
        adevs::double_fcmp s = a, r(c.below(100)), u(b);
        r = s;
        u = now;
        VCHECK((double)r == now && (double)u == now && (double)s == now, "fcmp-arithmetic", "a copy of ", now, " is ", (double)r, " or ", (double)u);
        s += adevs::double_fcmp(0.25);
        VCHECK((double)s == now + 0.25 && (double)(a + adevs::double_fcmp(0.25)) == now + 0.25, "fcmp-arithmetic", "sum");
        s -= adevs::double_fcmp(0.25);
        VCHECK((double)s == now && (double)((a + adevs::double_fcmp(0.25)) - adevs::double_fcmp(0.25)) == now, "fcmp-arithmetic", "difference");
        now += (double)c.below(64) * 0.125;
        c.fault("clock-advance");
    }
    adevs::double_fcmp::epsilon = keep;
}
}  // namespace

void time_laws_run(vsim::Ctx &c) {
    switch (c.below(4)) {
        case 1: return sd_laws<adevs::sd_time<int>>(c);
        case 2: return sd_laws<adevs::sd_time<long>>(c);
        case 3: return fcmp_laws(c);
        default: return sd_laws<adevs::sd_time<double>>(c);
    }
}

// Pins as values: a history of new pins, copies and assignments, on their own
// and with values, against the identity that each of them must have.
template <typename V>
static void pin_laws(vsim::Ctx &c, V (*value)(long), long (*number)(V const &)) {
    struct Slot {
        adevs::pin_t pin;
        long id;
    };
    struct Held {
        adevs::PinValue<V> x;
        long id, n;
    };
    std::vector<Slot> slots;
    std::vector<Held> held;
    std::map<adevs::pin_t, long> order;  // by the comparison of pins
    long next = 0;
    auto fresh = [&]() {
        slots.push_back({adevs::pin_t(), next++});
        VCHECK(order.insert(std::make_pair(slots.back().pin, slots.back().id)).second, "pin-identity", "a new pin orders like an older one");
    };
    fresh();
    int steps = c.range(1, 120);
    for (int i = 0; i < steps; i++) {
        std::size_t a = c.below((u32)slots.size()), b = c.below((u32)slots.size());
        switch (c.below(8)) {
            case 0:
            case 1: fresh(); break;
            case 2: {  // copy
                Slot s(slots[a]);
                slots.push_back(s);
                break;
            }
            case 3: {  // assign
                slots[b].pin = slots[a].pin;
                slots[b].id = slots[a].id;
                break;
            }
            case 4: held.push_back({adevs::PinValue<V>(slots[a].pin, value(i)), slots[a].id, i}); break;
            case 5:
                if (!held.empty()) {
                    Held h(held[c.below((u32)held.size())]);
                    held.push_back(h);
                }
                break;
            case 6:
                if (!held.empty()) {
                    std::size_t x = c.below((u32)held.size()), y = c.below((u32)held.size());
                    held[y].x = held[x].x;
                    held[y].id = held[x].id;
                    held[y].n = held[x].n;
                }
                break;
            default:
                if (slots.size() > 1) {
                    slots.erase(slots.begin() + (long)a);
                    c.fault("pin-destroyed");
                }
        }
        c.log("pin", (u64)a, (u64)b);
        if (slots.size() > 40) slots.resize(40, slots[0]);
        if (held.size() > 40) held.erase(held.begin(), held.begin() + 20);
        for (int k = 0; k < 12; k++) {
            Slot const &x = slots[c.below((u32)slots.size())], &y = slots[c.below((u32)slots.size())];
            bool same = x.id == y.id;
            int n = (int)(x.pin < y.pin) + (int)(x.pin == y.pin) + (int)(x.pin > y.pin);
            VCHECK((x.pin == y.pin) == same && (x.pin != y.pin) == !same && n == 1 && (x.pin <= y.pin) == !(x.pin > y.pin) &&
                       (x.pin >= y.pin) == !(x.pin < y.pin) && (x.pin < y.pin) == (y.pin > x.pin),
                   "pin-identity", same ? "two copies of one pin" : "two different pins", " do not compare so: ==, !=, <, <=, >, >= are ",
                   x.pin == y.pin, x.pin != y.pin, x.pin < y.pin, x.pin <= y.pin, x.pin > y.pin, x.pin >= y.pin);
            auto it = order.find(x.pin);
            VCHECK(it != order.end() && it->second == x.id, "pin-identity", "a pin is not found by its order");
        }
        for (auto &h : held) {
            auto it = order.find(h.x.pin);
            VCHECK(it != order.end() && it->second == h.id && number(h.x.value) == h.n, "pin-value", "value ", h.n, " on pin ", h.id, " became ",
                   number(h.x.value), " on pin ", it == order.end() ? -1 : it->second);
        }
    }
    c.nontrivial = steps > 1;
    c.feature("pins-as-values");
}

void pin_laws_run(vsim::Ctx &c) {
    if (c.chance(1, 2)) return pin_laws<long>(c, [](long n) { return n; }, [](long const &v) { return v; });
    return pin_laws<std::any>(c, [](long n) { return std::any(n); },
                              [](std::any const &v) { return v.has_value() ? std::any_cast<long>(v) : -1L; });
}
}  // namespace net

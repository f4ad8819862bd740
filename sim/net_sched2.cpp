// The schedule of schedule2.h, which keeps its models by shared pointers and
// asks them for their time advance, against a sorted reference. It has the
// name of the one in sched.h: it gets a namespace of its own here.
#include <cassert>
#include "net_gen.hpp"
#define adevs adevs_with_schedule2
#include "adevs/schedule2.h"

namespace net {
namespace {
template <typename T> struct Tm {  // float, double, int
    static T make(RT r) { return (T)r.t; }
    static RT back(T t) { return t < adevs_inf<T>() ? RT((long)t) : RT::infinity(); }
    static bool const sd = false;
};
template <typename B> struct Tm<adevs::sd_time<B>> {
    using T = adevs::sd_time<B>;
    static T make(RT r) { return T((B)r.t, r.k); }
    static RT back(T t) { return t < adevs_inf<T>() ? RT((long)t.real(), t.integer()) : RT::infinity(); }
    static bool const sd = true;
};

template <typename T>
struct Timed : adevs::Atomic<long, T> {
    int id;
    T when;
    Timed(int id, T when) : id(id), when(when) {}
    void delta_int() {}
    void delta_ext(T, std::list<adevs::PinValue<long>> const &) {}
    void delta_conf(std::list<adevs::PinValue<long>> const &) {}
    void output_func(std::list<adevs::PinValue<long>> &) {}
    T ta() { return when; }
};

template <typename T>
void run(vsim::Ctx &c) {
    int M = c.chance(1, 6) ? c.range(30, 300) : c.range(1, 24);
    int span = 1 << c.range(0, 8);
    auto when = [&]() {
        if (c.chance(1, 8)) return RT::infinity();
        return RT((long)c.below((u32)span), Tm<T>::sd ? c.range(0, 2) : 0);
    };
    auto time = [](RT r) { return r.inf() ? adevs_inf<T>() : Tm<T>::make(r); };
    std::vector<std::shared_ptr<Timed<T>>> models;
    for (int i = 0; i < M; i++) models.push_back(std::make_shared<Timed<T>>(i, adevs_inf<T>()));
    std::unique_ptr<adevs::Schedule<long, T>> q(new adevs::Schedule<long, T>);
    std::map<int, RT> ref;
    int steps = M > 40 ? M * 2 + c.range(0, 200) : c.range(1, 160);
    auto pick = [&]() { return std::next(ref.begin(), c.below((u32)ref.size()))->first; };
    for (int s = 0; s < steps; s++) {
        int k = (int)c.below(12);
        int i = (int)c.below((u32)M);
        if (k < 4 || ref.empty()) {  // join
            RT t = when();
            models[(std::size_t)i]->when = ref.count(i) ? models[(std::size_t)i]->when : time(t);
            bool refused = false;
            try {
                q->add(models[(std::size_t)i]);
            } catch (adevs::exception const &) { refused = true; }
            VNOTE("add m", i, " at ", t, refused ? ", refused" : "");
            VCHECK(refused == (ref.count(i) != 0), "schedule-refuses", "adding m", i, ref.count(i) ? ", which is in the schedule" : ", which is not in the schedule",
                   refused ? ", is refused" : ", is not refused");
            if (!refused) ref[i] = t;
        } else if (k < 8 && ref.count(i) == 0 && c.chance(1, 4)) {  // another time for a stranger
            bool refused = false;
            try {
                q->update(models[(std::size_t)i]);
            } catch (adevs::exception const &) { refused = true; }
            VNOTE("update m", i, refused ? ", refused" : "");
            VCHECK(refused, "schedule-refuses", "updating m", i, ", which is not in the schedule, is not refused");
        } else if (k < 8) {  // another time
            i = pick();
            RT t = when();
            models[(std::size_t)i]->when = time(t);
            VNOTE("update m", i, " to ", t);
            q->update(models[(std::size_t)i]);
            ref[i] = t;
            c.count("reschedulings");
        } else if (k == 8) {  // leave from anywhere
            bool in = c.chance(3, 4);
            if (in) i = pick();
            bool refused = false, here = ref.count(i) != 0;
            try {
                q->remove(models[(std::size_t)i]);
            } catch (adevs::exception const &) { refused = true; }
            VNOTE("remove m", i, refused ? ", refused" : "");
            VCHECK(refused == !here, "schedule-refuses", "removing m", i, here ? ", which is in the schedule" : ", which is not in the schedule",
                   refused ? ", is refused" : ", is not refused");
            ref.erase(i);
            c.fault("event-withdrawn");
        } else if (k == 9) {
            auto a = std::static_pointer_cast<Timed<T>>(q->get_next());
            VNOTE("remove_next() with m", a ? a->id : -1, " at the front");
            if (a) ref.erase(a->id);
            q->remove_next();
            c.feature("remove-minimum");
        } else if (k == 10 && c.chance(1, 2)) {
            VNOTE("update_all()");
            q->update_all();
        } else if (k == 11 && c.chance(1, 8)) {
            VNOTE("clear()");
            q->clear();
            ref.clear();
        } else {  // a burst of new events at one time
            RT t = when();
            int n = 1 + (int)c.below(12);
            VNOTE("up to ", n, " models to ", t);
            for (int j = 0; j < n; j++) {
                i = pick();
                models[(std::size_t)i]->when = time(t);
                q->update(models[(std::size_t)i]);
                ref[i] = t;
            }
            c.fault("burst-of-ties");
        }
        c.log("step", (u64)k, (u64)i);
        RT m = RT::infinity();
        for (auto &x : ref)
            if (x.second < m) m = x.second;
        RT got = Tm<T>::back(q->get_minimum());
        VCHECK(got == m, "schedule-minimum", "step ", s, ": get_minimum() is ", got, " but the earliest event is at ", m);
        VCHECK(q->size() == ref.size() && q->empty() == ref.empty(), "schedule-size", "step ", s, ": size ", q->size(), " with ",
               ref.size(), " models in the schedule");
        auto a = std::static_pointer_cast<Timed<T>>(q->get_next());
        VCHECK((a == nullptr) == ref.empty() && (a == nullptr || (ref.count(a->id) && ref[a->id] == m)), "schedule-minimum", "step ", s,
               ": get_next() is m", a == nullptr ? -1 : a->id, " which is not due at ", m);
    }
    // The rest in order
    while (!ref.empty() && c.chance(9, 10)) {
        RT m = RT::infinity();
        for (auto &x : ref)
            if (x.second < m) m = x.second;
        auto a = std::static_pointer_cast<Timed<T>>(q->get_next());
        VCHECK(a != nullptr && ref.count(a->id) && ref[a->id] == m, "schedule-minimum", "at the end: get_next() is m",
               a == nullptr ? -1 : a->id, " which is not due at ", m);
        ref.erase(a->id);
        q->remove_next();
    }
    c.nontrivial = steps > 1;
    c.feature("schedule2");
    q.reset();
    for (auto &m : models)
        VCHECK(m.use_count() == 1, "schedule-keeps", "the schedule is gone but m", m->id, " still has ", m.use_count(), " owners");
}
}  // namespace

void schedule2_run(vsim::Ctx &c) {
    switch (c.below(3)) {
        case 1: return run<int>(c);
        case 2: return run<adevs::sd_time<double>>(c);
        default: return run<double>(c);
    }
}
}  // namespace net

// C16: models driven by the CVODE wrapper, in simulated networks. Half of the
// models bring a stand-in integrator that is exact, takes steps that the seed
// chooses and keeps book of what it is asked for; the others run the real
// CVode of SUNDIALS. All trajectories are known in closed form.
#include <nvector/nvector_serial.h>
#include <sunlinsol/sunlinsol_dense.h>
#include <sunmatrix/sunmatrix_dense.h>
#include <algorithm>
#include "adevs/solvers/cvode.h"
#include "num.hpp"

namespace num {
namespace cv {

// Vectors are counted: clones are made by the code under test
static thread_local long live_vectors = 0;
static N_Vector counted_clone(N_Vector v) {
    N_Vector w = N_VClone_Serial(v);
    if (w != nullptr) {
        live_vectors++;
        // fresh memory has no useful content
        for (sunindextype i = 0; i < NV_LENGTH_S(w); i++) NV_Ith_S(w, i) = 1e77;
    }
    return w;
}
static void counted_destroy(N_Vector v) {
    live_vectors--;
    N_VDestroy_Serial(v);
}
static N_Vector make_vector(int n, SUNContext s, bool counted) {
    N_Vector v = N_VNew_Serial(n, s);
    if (!counted) return v;
    v->ops->nvclone = counted_clone;
    v->ops->nvdestroy = counted_destroy;
    live_vectors++;
    return v;
}

struct World;

struct Model : adevs::CVODE<V> {
    World &w;
    int id;
    bool real;        // real CVode, or the exact stand-in
    bool only_true;   // sets the event parameter only if there is an event
    int N;
    std::vector<Block> blocks;
    double h_max;
    double tol;
    int method;
    struct Arm {
        int var = 0;
        bool on = false;
        double thr = 0.0, dir = 1.0;
        double when = 0.0;
    };
    std::vector<Arm> arms;
    double deadline = adevs_inf<double>();  // absolute time
    bool sample = false;
    int zero_left = 4;
    // The model's integrator
    SUNContext sunctx = nullptr;
    N_Vector y = nullptr, abstol = nullptr;
    SUNMatrix A = nullptr;
    SUNLinearSolver LS = nullptr;
    void* mem = nullptr;
    double t_int = 0.0;
    // Reference
    double T0 = 0.0;              // time of the last discrete change
    std::vector<double> base;     // state after it
    double T_trans = 0.0;         // time of the last transition
    std::vector<double> y_trans;  // state after it
    double plan_tf = -1.0;
    bool plan_event = false, until_called = false, until_event = false, reinit_called = false, fresh = true;
    bool out_pending = false;
    long out_id = 0;
    int called = 0;  // discrete callbacks in this transition
    long ders = 0, steps = 0;
    std::multiset<V> inbox, taken;
    int discrete = 0;
    adevs::pin_t in, out;

    Model(World &w, int id, bool real, std::vector<Block> const &b, std::vector<double> const &q0, int M, double h_max,
          double tol, int method);
    ~Model() override;

    double* q() { return NV_DATA_S(y); }
    void exact(double const* q0, double h, double* q1) const {
        for (auto &b : blocks) b.exact(q0, h, q1);
    }
    double z_of(Arm const &a, double const* q) const { return a.on ? a.dir * (a.thr - q[a.var]) : 1.0; }
    double slack() const;
    double allowed(double dt) const;
    double close(double t) const { return 1e-9 * (1.0 + std::fabs(t)); }
    void check_state(double at, char const* where, double slip = 0.0);
    void check_quiet(char const* where);
    void take(std::list<adevs::PinValue<V>> const &xb, char const* where);
    void consume_output(char const* where);
    void arm(Arm &a);
    void act();
    void settle();
    void step_to(double limit, double &tf, bool &root);

    void cvode_delta_int() override;
    void cvode_delta_ext(double t, std::list<adevs::PinValue<V>> const &xb) override;
    void cvode_delta_conf(std::list<adevs::PinValue<V>> const &xb) override;
    void cvode_output_func(std::list<adevs::PinValue<V>> &yb) override;
    N_Vector cvode_get_state() override { return y; }
    void cvode_integrate(double &tf, bool &event) override;
    void cvode_integrate_until(double tf, bool &event) override;
    void cvode_reinit(N_Vector y, double t) override;

    static int f(double, N_Vector y, N_Vector d, void* m);
    static int g(double, N_Vector y, double* out, void* m);
};

struct World {
    Ctx &c;
    double now = 0.0;
    long next_id = 1;
    struct Out {
        int from;
        double at;
        bool caused = false;
        int seen = 0;
    };
    std::map<long, Out> outs;
    int deleted = 0;
    std::vector<Model*> ms;
    explicit World(Ctx &c) : c(c) {}
};

int Model::f(double, N_Vector y, N_Vector d, void* m) {
    auto &x = *static_cast<Model*>(m);
    x.ders++;
    if (vsim::ctx->budget > 0) vsim::ctx->budget--;
    for (auto &b : x.blocks) b.der(NV_DATA_S(y), NV_DATA_S(d));
    return 0;
}
int Model::g(double, N_Vector y, double* out, void* m) {
    auto &x = *static_cast<Model*>(m);
    for (std::size_t i = 0; i < x.arms.size(); i++) out[i] = x.z_of(x.arms[i], NV_DATA_S(y));
    return 0;
}

Model::Model(World &w, int id, bool real, std::vector<Block> const &b, std::vector<double> const &q0, int M, double h_max,
             double tol, int method)
    : adevs::CVODE<V>(), w(w), id(id), real(real), only_true(false), N((int)q0.size()), blocks(b), h_max(h_max), tol(tol),
      method(method), arms((std::size_t)M), base(q0), y_trans(q0) {
    vsim::AllocQuiet quiet;
#if SUNDIALS_VERSION_MAJOR < 7
    SUNContext_Create(nullptr, &sunctx);
#else
    SUNContext_Create(0, &sunctx);
#endif
    y = make_vector(N, sunctx, !real);  // CVode clones vectors in ways of its own
    std::copy(q0.begin(), q0.end(), q());
    if (real) {
        abstol = make_vector(N, sunctx, false);
        for (int i = 0; i < N; i++) NV_Ith_S(abstol, i) = tol;
        mem = CVodeCreate(method, sunctx);
        int r = CVodeInit(mem, f, 0.0, y);
        r |= CVodeSVtolerances(mem, tol, abstol);
        if (M > 0) r |= CVodeRootInit(mem, M, g);
        A = SUNDenseMatrix(N, N, sunctx);
        LS = SUNLinSol_Dense(y, A, sunctx);
        r |= CVodeSetLinearSolver(mem, LS, A);
        r |= CVodeSetUserData(mem, this);
        r |= CVodeSetMaxNumSteps(mem, 100000);
        if (r != CV_SUCCESS) std::abort();
    }
}

Model::~Model() {
    vsim::AllocQuiet quiet;
    N_VDestroy(y);
    if (real) {
        N_VDestroy(abstol);
        CVodeFree(&mem);
        SUNLinSolFree(LS);
        SUNMatDestroy(A);
    }
    SUNContext_Free(&sunctx);
    w.deleted++;
}

double Model::allowed(double dt) const {
    double mag = 1.0 + dt;
    for (double x : base) mag = std::max(mag, std::fabs(x) + dt);
    double a = real ? tol * mag * (100.0 + 10.0 * (double)ders) : 1e-9 * mag;
    for (auto &b : blocks)
        if (b.kind == Block::CHAIN) a *= std::pow(1.0 + b.a * dt, 2.0);
    return a;
}

double Model::slack() const { return real ? 1e-5 : 1e-9; }

void Model::check_state(double at, char const* where, double slip) {
    double dt = at - T0;
    double clock = q()[0] - base[0];
    double a = allowed(dt), eps = close(at) + (real ? a : 0.0);
    VCHECK(dt - clock <= slip + eps && clock - dt <= eps, "wrong-time", "model ", id, ": ", where, " at ", w.now, ", ", dt,
           " after the last discrete change, sees the state for ", clock, " after it");
    std::vector<double> want((std::size_t)N);
    exact(base.data(), clock, want.data());
    for (int i = 0; i < N; i++)
        VCHECK(std::fabs(q()[i] - want[(std::size_t)i]) <= a, "wrong-state", "model ", id, ": ", where, " at ", w.now, " sees ",
               q()[i], " for variable ", i, ", which should be ", want[(std::size_t)i], " (allowed ", a, ")");
}

void Model::check_quiet(char const* where) {
    double a = allowed(w.now - T0) + slack() * 10.0;
    for (auto &m : arms)
        VCHECK(z_of(m, q()) >= -a, "event-missed", "model ", id, ": ", where, " at ", w.now, ": variable ", m.var, " is ",
               q()[m.var], ", beyond the threshold ", m.thr, ", but the event at ", m.when, " did not happen");
    VCHECK(w.now <= deadline + close(w.now), "event-missed", "model ", id, ": ", where, " at ", w.now,
           ": the event due at ", deadline, " did not happen");
}

void Model::take(std::list<adevs::PinValue<V>> const &xb, char const* where) {
    for (auto &x : xb) {
        VCHECK(x.pin == in, "wrong-input", "model ", id, ": ", where, " gets a value on a foreign pin");
        taken.insert(x.value);
    }
    VCHECK(taken == inbox, "wrong-input", "model ", id, ": ", where, " at ", w.now, " gets ", xb.size(), " values, ",
           inbox.size(), " were delivered");
}

void Model::consume_output(char const* where) {
    VCHECK(out_pending, "output-missing", "model ", id, ": ", where, " at ", w.now, " without output before it");
    out_pending = false;
    auto &o = w.outs[out_id];
    o.caused = true;
    VCHECK(o.at == w.now, "output-time", "model ", id, ": output was computed at ", o.at, " for an event at ", w.now);
}

// One step of the integrator, to the limit or the first root
void Model::step_to(double limit, double &tf, bool &root) {
    steps++;
    root = false;
    if (real) {
        if (limit - t_int < 1e-10 * (1.0 + std::fabs(limit))) {  // too small for CVode
            for (auto &b : blocks) {
                std::vector<double> n((std::size_t)N);
                b.exact(q(), limit - t_int, n.data());
                for (int i = 0; i < b.n; i++) q()[b.at + i] = n[(std::size_t)(b.at + i)];
            }
            t_int = tf = limit;
            CVodeReInit(mem, t_int, y);
            for (auto &a : arms) root = root || z_of(a, q()) <= 0.0;
            return;
        }
        double t = t_int;
        int r = CVode(mem, limit, y, &t, CV_NORMAL);
        if (r != CV_SUCCESS && r != CV_ROOT_RETURN)
            w.c.violate("harness-cvode", cat("CVode failed with ", r, " from ", t_int, " to ", limit));
        root = r == CV_ROOT_RETURN;
        t_int = tf = t;
        // CVode overlooks roots next to its starting point
        for (auto &a : arms) root = root || z_of(a, q()) <= 0.0;
        return;
    }
    double to = limit;
    for (auto &a : arms)
        if (a.on && a.when <= to) {
            to = std::max(a.when, t_int);
            root = true;
        }
    std::vector<double> n((std::size_t)N);
    exact(base.data(), to - T0, n.data());
    std::copy(n.begin(), n.end(), q());
    t_int = tf = to;
}

void Model::cvode_integrate(double &tf, bool &event) {
    vsim::AllocQuiet quiet;
    auto &c = w.c;
    c.spend();
    VNOTE("t=", w.now, " model ", id, " integrate from ", t_int);
    VCHECK(called <= 1, "event-repeated", "model ", id, ": several discrete changes in one transition");
    VCHECK(std::fabs(t_int - w.now) <= close(w.now), "wrong-time", "model ", id, ": asked to integrate at ", w.now,
           " but its integrator is at ", t_int);
    check_state(w.now, "cvode_integrate");
    T_trans = w.now;
    y_trans.assign(q(), q() + N);
    plan_event = until_called = until_event = reinit_called = false;
    if (sample) {
        plan_tf = tf = t_int;
        plan_event = event = true;
        return;
    }
    double h = h_max;
    if (!real) {
        static double const part[] = {1.0, 0.5, 0.25, 0.3, 0.01};
        h *= part[c.below(5)];
    }
    double limit = t_int + h;
    bool due = deadline <= limit;
    if (due) limit = std::max(deadline, t_int);
    bool root;
    step_to(limit, plan_tf, root);
    tf = plan_tf;
    plan_event = root || due;
    if (root && tf < deadline) due = false;
    if (plan_event || !only_true) event = plan_event;
    c.log("step", (u64)id, (u64)(tf * 1e6), plan_event);
    VNOTE("   to ", tf, plan_event ? " with an event" : "");
}

void Model::cvode_reinit(N_Vector v, double t) {
    vsim::AllocQuiet quiet;
    auto &c = w.c;
    c.spend();
    VNOTE("t=", w.now, " model ", id, " reinit to ", t);
    VCHECK(std::fabs(t - T_trans) <= close(t), "wrong-time", "model ", id, ": at ", w.now, " rolled back to ", t,
           ", the last transition was at ", T_trans);
    VCHECK(NV_LENGTH_S(v) == N && std::equal(y_trans.begin(), y_trans.end(), NV_DATA_S(v)), "wrong-state", "model ", id, ": at ",
           w.now, " rolled back to another state than that after the last transition, at ", T_trans);
    std::copy(y_trans.begin(), y_trans.end(), q());
    t_int = t;
    reinit_called = true;
    if (real && CVodeReInit(mem, t, y) != CV_SUCCESS) c.violate("harness-cvode", "CVodeReInit failed");
}

void Model::cvode_integrate_until(double tf, bool &event) {
    vsim::AllocQuiet quiet;
    auto &c = w.c;
    c.spend();
    VNOTE("t=", w.now, " model ", id, " integrate from ", t_int, " until ", tf);
    VCHECK(std::fabs(tf - w.now) <= close(tf), "wrong-time", "model ", id, ": asked to integrate until ", tf, " at ", w.now);
    VCHECK(t_int <= tf + close(tf), "wrong-time", "model ", id, ": asked to integrate until ", tf,
           " but its integrator is at ", t_int);
    VCHECK(!sample, "event-missed", "model ", id, ": input at ", w.now, " overtakes the immediate event");
    until_called = true;
    double at;
    bool root = false;
    if (tf > t_int) step_to(tf, at, root);
    until_event = root || deadline <= tf;
    if (until_event || !only_true) event = until_event;
    if (until_event) {
        c.feature("event-found-at-input");
        t_int = tf;
    }
}

void Model::cvode_output_func(std::list<adevs::PinValue<V>> &yb) {
    vsim::AllocQuiet quiet;
    auto &c = w.c;
    c.spend();
    VNOTE("t=", w.now, " model ", id, " output");
    VCHECK(plan_event, "output-without-event", "model ", id, ": output asked for at ", w.now, " without an event");
    VCHECK(std::fabs(w.now - plan_tf) <= close(w.now), "output-time", "model ", id, ": output asked for at ", w.now,
           ", the event is at ", plan_tf);
    VCHECK(!out_pending, "output-repeated", "model ", id, ": output asked for twice for one event, at ", w.now);
    check_state(w.now, "cvode_output_func");
    out_pending = true;
    out_id = w.next_id++;
    w.outs[out_id] = World::Out{id, w.now, false, 0};
    c.log("output", (u64)id, (u64)out_id, (u64)(w.now * 1e6));
    yb.push_back(adevs::PinValue<V>(out, out_id));
}

void Model::arm(Arm &a) {
    auto &c = w.c;
    a.on = false;
    if (c.chance(1, 6)) return;
    double dt = 0.125 * (double)c.range(1, 16);
    if (c.chance(1, 3)) dt *= 0.777;
    std::vector<double> at((std::size_t)N);
    exact(q(), dt, at.data());
    a.thr = at[(std::size_t)a.var];
    double d = a.thr - q()[a.var];
    if (std::fabs(d) < 2e-2) return;
    // steep enough at the threshold for the crossing to be well defined
    std::vector<double> dq((std::size_t)N);
    for (auto &b : blocks) b.der(at.data(), dq.data());
    if (std::fabs(dq[(std::size_t)a.var]) < 1e-2) return;
    a.dir = d > 0.0 ? 1.0 : -1.0;
    a.when = w.now + dt;
    a.on = true;
}

void Model::act() {
    auto &c = w.c;
    if (sample) {
        sample = false;
    } else if (zero_left > 0 && c.chance(1, 5)) {
        zero_left--;
        sample = true;
        c.feature("zero-delay-event");
    }
    if (c.chance(1, 8)) zero_left = 4;
    if (c.chance(1, 4)) {  // jump
        auto &b = blocks[c.below((u32)blocks.size())];
        if (b.at != 0) {
            for (int i = 0; i < b.n; i++) {
                double x = draw_state(c, b, i);
                if (b.kind == Block::CHAIN) x = std::fabs(x);
                q()[b.at + i] = x;
            }
            for (auto &a : arms)
                if (a.var >= b.at && a.var < b.at + b.n) arm(a);
        }
    }
    for (auto &b : blocks)
        if (b.kind == Block::CHAIN && q()[b.at + 2] > 40.0) {
            for (int i = 0; i < b.n; i++) q()[b.at + i] = 0.5;
            for (auto &a : arms)
                if (a.var >= b.at && a.var < b.at + b.n) arm(a);
        }
    for (auto &a : arms) {
        bool fired = a.on && (a.when <= w.now + (real ? 1e-3 : 1e-9) || z_of(a, q()) <= 0.0);
        if (fired || (!a.on && c.chance(1, 2))) arm(a);
    }
    if (deadline <= w.now + close(w.now) || c.chance(1, 8)) {
        if (c.chance(1, 3))
            deadline = adevs_inf<double>();
        else
            deadline = w.now + 0.125 * (double)c.range(1, 16);
    }
}

void Model::settle() {
    T0 = w.now;
    base.assign(q(), q() + N);
    ders = 0;
    called++;
    discrete++;
    if (real) CVodeReInit(mem, t_int, y);
    w.c.state(vsim::mix((u64)real, (u64)method, (u64)std::min(discrete, 50), (u64)arms.size()));
}

void Model::cvode_delta_int() {
    vsim::AllocQuiet quiet;
    auto &c = w.c;
    c.spend();
    VNOTE("t=", w.now, " model ", id, " internal");
    c.log("internal", (u64)id, (u64)(w.now * 1e6));
    VCHECK(plan_event && std::fabs(w.now - plan_tf) <= close(w.now), "spurious-event", "model ", id, ": internal change at ",
           w.now, " without an event");
    VCHECK(!reinit_called && called == 0, "event-repeated", "model ", id, ": internal change at ", w.now, " after another change");
    VCHECK(inbox.empty(), "wrong-input", "model ", id, ": internal change at ", w.now, " though input was delivered");
    check_state(w.now, "cvode_delta_int");
    consume_output("cvode_delta_int");
    act();
    settle();
    c.count("internal-events");
}

void Model::cvode_delta_ext(double t, std::list<adevs::PinValue<V>> const &xb) {
    vsim::AllocQuiet quiet;
    auto &c = w.c;
    c.spend();
    VNOTE("t=", w.now, " model ", id, " external, t=", t);
    c.log("external", (u64)id, (u64)(w.now * 1e6), xb.size());
    VCHECK(std::fabs(t - w.now) <= close(t), "wrong-time", "model ", id, ": cvode_delta_ext is told ", t, " at ", w.now);
    VCHECK(called == 0, "event-repeated", "model ", id, ": external change at ", w.now, " after another change");
    VCHECK(until_called ? !until_event : !plan_event, "event-missed", "model ", id, ": external change at ", w.now,
           " in place of a confluent one");
    t_int = t;
    check_state(w.now, "cvode_delta_ext");
    check_quiet("cvode_delta_ext");
    VCHECK(!out_pending, "output-repeated", "model ", id, ": output was asked for an external change, at ", w.now);
    take(xb, "cvode_delta_ext");
    if (c.chance(2, 3)) act();
    settle();
    c.count("external-events");
}

void Model::cvode_delta_conf(std::list<adevs::PinValue<V>> const &xb) {
    vsim::AllocQuiet quiet;
    auto &c = w.c;
    c.spend();
    VNOTE("t=", w.now, " model ", id, " confluent");
    c.log("confluent", (u64)id, (u64)(w.now * 1e6), xb.size());
    VCHECK(called == 0, "event-repeated", "model ", id, ": confluent change at ", w.now, " after another change");
    if (until_called) {
        VCHECK(until_event, "spurious-event", "model ", id, ": confluent change at ", w.now, " without an event");
        VCHECK(!out_pending, "output-repeated", "model ", id, ": output and roll back for one event at ", w.now);
        check_state(w.now, "cvode_delta_conf", 1e-3);
    } else {
        VCHECK(plan_event && std::fabs(w.now - plan_tf) <= close(w.now), "spurious-event", "model ", id,
               ": confluent change at ", w.now, " without an event");
        check_state(w.now, "cvode_delta_conf");
        consume_output("cvode_delta_conf");
    }
    take(xb, "cvode_delta_conf");
    act();
    settle();
    c.count("confluent-events");
}

struct Collector : adevs::Atomic<V> {
    World &w;
    explicit Collector(World &w) : w(w) {}
    double ta() override { return adevs_inf<double>(); }
    void delta_int() override {}
    void output_func(std::list<adevs::PinValue<V>> &) override {}
    void delta_ext(double, std::list<adevs::PinValue<V>> const &xb) override {
        for (auto &x : xb) {
            auto o = w.outs.find(x.value);
            VCHECK(o != w.outs.end(), "stray-output", "value ", x.value, " arrived that no model sent");
            VCHECK(++o->second.seen == 1, "output-repeated", "output ", x.value, " of model ", o->second.from, " arrived again");
            VCHECK(w.now == o->second.at, "output-time", "output ", x.value, " of model ", o->second.from, " at ", o->second.at,
                   " arrived at ", w.now);
        }
    }
    void delta_conf(std::list<adevs::PinValue<V>> const &xb) override { delta_ext(0.0, xb); }
};

struct Watch : adevs::EventListener<V> {
    World &w;
    std::map<adevs::Atomic<V>*, int> who;
    explicit Watch(World &w) : w(w) {}
    void outputEvent(adevs::Atomic<V> &, adevs::PinValue<V> &, double) override {}
    void inputEvent(adevs::Atomic<V> &m, adevs::PinValue<V> &v, double) override {
        vsim::AllocQuiet quiet;
        auto i = who.find(&m);
        if (i != who.end()) w.ms[(std::size_t)i->second]->inbox.insert(v.value);
    }
    // Whether the model's integrator has already gone ahead when a state change
    // is announced is up to the simulator
    void stateChange(adevs::Atomic<V> &, double) override {}
};

}  // namespace cv

void cvode_run(Ctx &c) {
    using namespace cv;
    vsim::alloc_fill_seed(c.below(256));
    vsim::alloc_epoch_begin();
    vsim::Pool::reset(c.below(1 << 16), 16);
    c.budget = 3000000;
    live_vectors = 0;
    World w(c);
    int n = c.range(1, 3);
    bool wild = !c.chance(1, 4);
    {
        std::vector<std::shared_ptr<Model>> hy;
        auto col = std::shared_ptr<cv::Collector>(new Placed<cv::Collector>(w));
        auto watch = std::make_shared<cv::Watch>(w);
        for (int i = 0; i < n; i++) {
            std::vector<Block> b;
            std::vector<double> q0;
            draw_blocks(c, 3, true, b, q0);
            for (auto &x : b) {
                if (x.kind == Block::QUAD) x.kind = Block::DECAY;
                if (x.kind == Block::CHAIN)
                    for (int k = 0; k < 3; k++) q0[(std::size_t)(x.at + k)] = std::fabs(q0[(std::size_t)(x.at + k)]);
            }
            q0[0] = 0.0;
            std::vector<int> mono;
            for (auto &x : b)
                if (x.kind != Block::OSC)
                    for (int k = 0; k < x.n; k++) mono.push_back(x.at + k);
            bool real = c.chance(1, 4);
            int M = c.range(0, c.chance(1, 15) ? 12 : 3);
            double h = 0.125 * (double)c.range(1, 16);
            double tol = std::pow(10.0, -c.range(6, 8));
            int method = c.chance(1, 2) ? CV_BDF : CV_ADAMS;
            bool only_true = c.chance(1, 2);
            std::shared_ptr<Model> h1;
            {
                vsim::AllocLoud loud;
                h1 = std::shared_ptr<Model>(new Placed<Model>(w, i, real, b, q0, M, h, tol, method));
            }
            h1->only_true = only_true;
            for (auto &a : h1->arms) {
                a.var = mono[c.below((u32)mono.size())];
                h1->arm(a);
            }
            if (c.chance(1, 2)) h1->deadline = 0.125 * (double)c.range(0, 12);
            VNOTE("model ", i, real ? ": CVode" : ": exact", " step ", h, " tolerance ", tol, ", ", M, " events, ", q0.size(),
                  " variables", only_true ? ", sets event only if there is one" : "");
            w.ms.push_back(h1.get());
            watch->who[h1.get()] = i;
            hy.push_back(h1);
            c.feature(real ? "real-cvode" : "exact-integrator");
        }
        auto g = std::make_shared<adevs::Graph<V>>();
        adevs::pin_t all;
        g->add_atomic(col);
        for (int i = 0; i < n; i++) {
            g->add_atomic(hy[(std::size_t)i]);
            g->connect(w.ms[(std::size_t)i]->out, col);
            g->connect(w.ms[(std::size_t)i]->in, hy[(std::size_t)i]);
            g->connect(all, w.ms[(std::size_t)i]->in);
            for (int j = 0; j < n; j++)
                if (j != i && c.chance(1, 4)) g->connect(w.ms[(std::size_t)i]->out, w.ms[(std::size_t)j]->in);
        }
        std::unique_ptr<adevs::Simulator<V>> sim;
        {
            vsim::AllocLoud loud;
            sim.reset(new adevs::Simulator<V>(g));
            sim->addEventListener(watch);
        }
        int cycles = c.range(4, c.thorough ? 160 : 70);
        V injected = -1;
        double last = 0.0;
        for (int k = 0; k < cycles; k++) {
            double next = sim->nextEventTime();
            VCHECK(next >= last, "time-backwards", "next event at ", next, " after ", last);
            double t = next;
            if (wild && c.chance(1, 3)) {
                double gap = next - last;
                switch (c.below(6)) {
                    case 0: t = next; c.fault("input-at-event-time"); break;
                    case 1: t = last; c.fault("input-repeated-at-same-time"); break;
                    case 2: t = std::max(last, std::nextafter(next, 0.0)); c.fault("input-just-before-event"); break;
                    default: t = last + gap * (double)c.range(0, 15) / 16.0; c.fault("input-between-steps"); break;
                }
                int m = c.range(1, 2);
                for (int j = 0; j < m; j++) {
                    adevs::PinValue<V> x(c.chance(1, 4) ? all : w.ms[c.below((u32)n)]->in, injected--);
                    sim->injectInput(x);
                }
                if (t < next) sim->setNextTime(t);
                VNOTE("input at ", t);
            }
            w.now = t;
            double r;
            {
                vsim::AllocLoud loud;
                r = sim->execNextEvent();
            }
            VCHECK(r == t, "cycle-time", "the cycle at ", t, " returned ", r);
            for (int i = 0; i < n; i++) {
                auto &m = *w.ms[(std::size_t)i];
                VCHECK(m.taken == m.inbox, "input-lost", "model ", i, ": ", m.inbox.size(), " inputs were delivered at ", t, " but ",
                       m.taken.size(), " reached the model");
                VCHECK(!m.out_pending, "output-without-event", "model ", i, ": output at ", t, " but no discrete change");
                m.called = 0;
                m.inbox.clear();
                m.taken.clear();
                VCHECK(m.plan_tf >= t - m.close(t), "event-missed", "model ", i, ": the step ahead ends at ", m.plan_tf,
                       " but time is ", t);
            }
            double after = sim->nextEventTime();
            for (auto &o : w.outs) {
                VCHECK(o.second.caused, "output-without-event", "model ", o.second.from, " produced output ", o.first, " at ",
                       o.second.at, " without an event");
                if (after > o.second.at)
                    VCHECK(o.second.seen == 1, "output-lost", "output ", o.first, " of model ", o.second.from, " at ",
                           o.second.at, " never arrived");
            }
            while (!w.outs.empty() && w.outs.begin()->second.seen == 1) w.outs.erase(w.outs.begin());
            last = t;
            c.nontrivial = true;
        }
        c.sim_time += last;
        for (auto m : w.ms) c.count("discrete-events", (u64)m->discrete);
        vsim::AllocLoud loud;
        sim.reset();
        g.reset();
        hy.clear();
        VCHECK(w.deleted == n, "not-released", n - w.deleted, " of ", n, " models were not released");
        VCHECK(live_vectors == 0, "memory-leak", live_vectors, " state vectors were not released");
    }
    auto st = vsim::alloc_epoch_stats();
    VCHECK(st.live == 0 && st.c_live == 0, "memory-leak", st.live, " allocations (", st.live_bytes, " bytes) and ", st.c_live, " blocks of C libraries were never released");
}

}  // namespace num

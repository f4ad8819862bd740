// C17: the wrapper for FMUs. The functions of the FMI Library are implemented
// by a simulated FMU with a known solution, which polices the order of calls
// that FMI 2.0 prescribes for model exchange and keeps book of every event
// that it asks for.
#include <algorithm>
#include <csetjmp>
#include <map>
#include <set>
#include "num.hpp"
#include "adevs/solvers/fmi.h"

struct fmi2_import_t;
namespace num {
namespace {
enum LocK { L_BISECT, L_LINEAR, L_DISC, L_FAST, L_SPLINE, L_NULL };
char const* const l_name[] = {"bisection", "linear", "discontinuous", "fast", "fast+spline", "null"};
enum Mode { NONE, INSTANTIATED, INIT, EVENT, CONT, TERMINATED };
char const* const m_name[] = {"no instance", "instantiated", "initialization mode", "event mode", "continuous time mode",
                              "terminated"};

struct Arm {
    int var = 0;  // -1: the time
    bool on = false;
    double thr = 0.0, dir = 1.0, scale = 1.0;
    bool jump = false;
};
struct Spec {
    fmi_version_enu_t version = fmi_version_2_0_enu;
    bool parses = true;
    fmi2_fmu_kind_enu_t kind = fmi2_fmu_kind_me;
    std::vector<Block> blocks;  // after the first variable, whose derivative is ramp * time + u
    std::vector<double> x0;
    double ramp = 1.0;
    std::vector<Arm> arms;
    std::vector<int> mono;
    double first_event = -1.0;
    bool has_dd = false, lazy = false, step_events = false;
    double tol = 1e-4;
};
struct Wrap;
struct FW {
    Ctx &c;
    double now = 0.0;
    long next_id = 1;
    struct Out {
        int from;
        double at;
        bool caused = false;
        int seen = 0;
    };
    std::map<long, Out> outs;
    std::vector<Spec> specs;
    std::vector<Wrap*> ws;
    std::map<int, fmi2_import_t*> loaded;
    std::map<std::string, int> dirs;  // temporary directories and what was unpacked there
    bool direct = false;  // the calls of a solver are made by the test itself
    int next_dir = 0, contexts = 0, fmus = 0, dlls = 0, instances = 0, lists = 0, made = 0;
    explicit FW(Ctx &c) : c(c) {}
};
thread_local FW* fw = nullptr;

// The code under test answers an error of the FMU by failing an assertion.
// That ends what it was doing here, and not the process.
thread_local std::jmp_buf give_up;
thread_local bool may_give_up = false;
}  // namespace
}  // namespace num

extern "C" void __assert_fail(char const* expr, char const* file, unsigned line, char const* func) noexcept {
    if (num::may_give_up) {
        num::may_give_up = false;
        std::longjmp(num::give_up, 1);
    }
    std::fprintf(stderr, "%s:%u: %s: Assertion `%s' failed.\n", file, line, func, expr);
    std::abort();
}

namespace num {
namespace {
// False if an assertion failed
template <typename F>
bool guarded(F f) {
    int quiet = vsim::alloc_quiet_depth();
    if (setjmp(give_up) == 0) {
        may_give_up = true;
        f();
        may_give_up = false;
        return true;
    }
    vsim::alloc_quiet_depth(quiet);
    return false;
}
struct Disarm {
    ~Disarm() { may_give_up = false; }
};
}  // namespace
}  // namespace num

using namespace num;

struct fmi_import_context_t {
    int unused = 0;
};
struct fmi2_import_variable_t {
    std::string name;
    fmi2_value_reference_t vr;
    fmi2_base_type_enu_t type;
    fmi2_variability_enu_t variability;
    fmi2_causality_enu_t causality;
};
struct fmi2_import_variable_list_t {
    fmi2_import_t* of;
};

struct fmi2_import_t {
    FW &w;
    int id;
    Spec s;
    Mode mode = NONE;
    bool dll = false, logging = false, setup = false, left_init = false;
    int N, M;
    double t = 0.0;
    std::vector<double> x;
    double u = 0.0;
    int cmd = 0, cmd_done = 0, count = 0;
    int flag = 0, flag_done = 0;
    int level = 1;      // an enumeration
    u64 accesses = 0;   // of variables
    std::vector<Arm> arms;
    double next_event = -1.0;  // negative: none
    bool step_pending = false;
    double step_at = -1.0;
    int zero_left = 3;
    // Since the last event
    std::vector<double> base;
    double base_t = 0.0;
    u64 ders = 0, kin0 = 0;
    // An event iteration in progress
    int iterations = 0;
    bool settled = true;
    struct Change {
        std::vector<double> x;
        std::vector<Arm> arms;
        double next;
    } pending;
    // What completed_integrator_step was told
    double last_step = 0.0;
    bool must = false;
    double must_t = 0.0;
    // An error to come
    int fail_in = 0;
    fmi2_status_t fail_status = fmi2_status_ok;
    char const* failed = nullptr;
    double const* cur_q = nullptr;  // the state that the wrapper is given at an event
    std::vector<fmi2_import_variable_t> vars;

    fmi2_import_t(FW &w, int id, Spec const &s) : w(w), id(id), s(s), N((int)s.x0.size()), M((int)s.arms.size()) {
        x.assign((std::size_t)N, -77.0);
        arms = s.arms;
        auto real = [&](std::string n, int vr, fmi2_causality_enu_t ca) {
            vars.push_back({n, (fmi2_value_reference_t)vr, fmi2_base_type_real, fmi2_variability_enu_continuous, ca});
        };
        for (int i = 0; i < N; i++) {
            real(cat("x", i), i, fmi2_causality_enu_local);
            real(cat("der(x", i, ")"), N + i, fmi2_causality_enu_local);
        }
        real("u", 2 * N, fmi2_causality_enu_input);
        vars.push_back({"count", 0, fmi2_base_type_int, fmi2_variability_enu_discrete, fmi2_causality_enu_output});
        vars.push_back({"cmd", 1, fmi2_base_type_int, fmi2_variability_enu_discrete, fmi2_causality_enu_input});
        vars.push_back({"flag", 0, fmi2_base_type_bool, fmi2_variability_enu_discrete, fmi2_causality_enu_input});
        vars.push_back({"level", 2, fmi2_base_type_enum, fmi2_variability_enu_discrete, fmi2_causality_enu_input});
        vars.push_back({"odd", 1, fmi2_base_type_bool, fmi2_variability_enu_discrete, fmi2_causality_enu_output});
    }
    void in(char const* call, std::initializer_list<Mode> ok) {
        w.c.spend();
        VCHECK(failed == nullptr, "error-ignored", "FMU ", id, ": ", call, " called after an error of ", failed);
        for (Mode m : ok)
            if (m == mode) return;
        w.c.violate("call-sequence", cat("FMU ", id, ": ", call, " called in ", m_name[mode], " at t=", t));
    }
    // An error instead of an answer
    bool fails(char const* call) {
        if (fail_in == 0 || --fail_in > 0) return false;
        failed = call;
        w.c.fault("fmu-error");
        VNOTE("  FMU ", id, " fails in ", call);
        return true;
    }
    void der(double time, double const* q, double* dq) const {
        dq[0] = s.ramp * time + u;
        for (auto &b : s.blocks) b.der(q, dq);
    }
    void exact(double time, double* out) const {
        double h = time - base_t;
        out[0] = base[0] + s.ramp * (time * time - base_t * base_t) / 2.0 + u * h;
        for (auto &b : s.blocks) b.exact(base.data(), h, out);
    }
    void exact_from(double t0, double const* from, double uu, double time, double* out) const {
        double h = time - t0;
        out[0] = from[0] + s.ramp * (time * time - t0 * t0) / 2.0 + uu * h;
        for (auto &b : s.blocks) b.exact(from, h, out);
    }
    double rate() const {
        double r = 1e-3;
        for (auto &b : s.blocks) r = std::max(r, b.rate(base.data()));
        return r;
    }
    double z_of(Arm const &a, double time, double const* q) const {
        if (!a.on) return 1.0;
        double d = a.dir * (a.thr - (a.var < 0 ? time : q[a.var]));
        if (a.jump) return a.scale * (d > 0.0 ? 1.0 : -1.0);
        return a.scale * d;
    }
    bool time_due(double time) const { return next_event >= 0.0 && time >= next_event - 1e-9 * (1.0 + time); }
    void arm(Arm &a, double time, double const* q) {
        auto &c = w.c;
        a.on = false;
        if (c.chance(1, 6)) return;
        double dt = 0.125 * (double)c.range(1, 16);
        if (c.chance(1, 3)) dt *= 0.777;
        if (a.var < 0) {
            a.thr = time + dt;
            a.dir = 1.0;
            a.on = true;
            return;
        }
        std::vector<double> at((std::size_t)N);
        exact_from(time, q, u, time + dt, at.data());
        a.thr = at[(std::size_t)a.var];
        double d = a.thr - q[a.var];
        if (std::fabs(d) < 1e-2) return;
        a.dir = d > 0.0 ? 1.0 : -1.0;
        a.on = true;
    }
    // Discrete changes at an event
    void draw_change(bool time, std::vector<bool> const &hit) {
        auto &c = w.c;
        pending.x = x;
        pending.arms = arms;
        pending.next = next_event;
        if (c.chance(1, 2)) {
            auto &b = s.blocks[c.below((u32)s.blocks.size())];
            for (int i = 0; i < b.n; i++) {
                double v = draw_state(c, b, i);
                if (b.kind == Block::CHAIN) v = std::fabs(v);
                pending.x[(std::size_t)(b.at + i)] = v;
            }
            for (auto &a : pending.arms)
                if (a.var >= b.at && a.var < b.at + b.n) arm(a, t, pending.x.data());
        }
        for (auto &b : s.blocks)
            if (b.kind == Block::CHAIN && std::fabs(pending.x[(std::size_t)(b.at + b.n - 1)]) > 40.0) {
                for (int i = 0; i < b.n; i++) pending.x[(std::size_t)(b.at + i)] = 0.5;
                for (auto &a : pending.arms)
                    if (a.var >= b.at && a.var < b.at + b.n) arm(a, t, pending.x.data());
            }
        for (int i = 0; i < M; i++) {
            auto &a = pending.arms[(std::size_t)i];
            if (hit[(std::size_t)i] || (!a.on && c.chance(1, 2))) arm(a, t, pending.x.data());
            // The derivative of the first variable may change its sign when its input does
            if (a.on && a.var >= 0 && a.scale * a.dir * (a.thr - pending.x[(std::size_t)a.var]) <= 0.0) a.on = false;
        }
        if (time || c.chance(1, 6) || (next_event < 0.0 && c.chance(1, 3))) {
            switch (c.below(5)) {
                case 0: pending.next = -1.0; break;
                case 1:
                    if (zero_left > 0) {
                        zero_left--;
                        pending.next = t;
                        c.feature("zero-delay-event");
                    } else {
                        pending.next = t + 0.5;
                    }
                    break;
                default:
                    zero_left = 3;
                    pending.next = t + 0.125 * (double)c.range(1, 16) * (c.chance(1, 4) ? 0.777 : 1.0);
            }
        }
    }
    void apply() {
        x = pending.x;
        arms = pending.arms;
        next_event = pending.next;
        settled = true;
    }
};

// ---- The FMI Library ----------------------------------------------------
void jm_default_logger(jm_callbacks*, jm_string, jm_log_level_enu_t, jm_string) {}
jm_callbacks* jm_get_default_callbacks(void) {
    static thread_local jm_callbacks cb;
    cb.malloc = malloc;
    cb.calloc = calloc;
    cb.realloc = realloc;
    cb.free = free;
    cb.logger = jm_default_logger;
    return &cb;
}
fmi_import_context_t* fmi_import_allocate_context(jm_callbacks*) {
    vsim::AllocQuiet quiet;
    fw->contexts++;
    return new fmi_import_context_t;
}
void fmi_import_free_context(fmi_import_context_t* x) {
    vsim::AllocQuiet quiet;
    if (x == nullptr) return;
    fw->contexts--;
    delete x;
}
char* fmi_import_mk_temp_dir(jm_callbacks* cb, char const* base, char const*) {
    vsim::AllocQuiet quiet;
    std::string d = cat(base != nullptr ? base : "", "/fmil", fw->next_dir++);
    char* p = (char*)(cb != nullptr ? cb : jm_get_default_callbacks())->malloc(d.size() + 1);
    std::memcpy(p, d.c_str(), d.size() + 1);
    fw->dirs[d] = -1;
    return p;
}
jm_status_enu_t fmi_import_rmdir(jm_callbacks*, char const* d) {
    vsim::AllocQuiet quiet;
    VCHECK(fw->dirs.erase(d) == 1, "wrong-directory", "asked to remove the directory ", d);
    return jm_status_success;
}
fmi_version_enu_t fmi_import_get_fmi_version(fmi_import_context_t*, char const* file, char const* dir) {
    vsim::AllocQuiet quiet;
    auto d = fw->dirs.find(dir);
    VCHECK(d != fw->dirs.end(), "wrong-directory", "asked to unpack into ", dir);
    VCHECK(std::strncmp(file, "fmu-", 4) == 0, "wrong-file", "asked to load ", file);
    d->second = std::atoi(file + 4);
    return fw->specs[(std::size_t)d->second].version;
}
fmi2_import_t* fmi2_import_parse_xml(fmi_import_context_t* x, char const* dir, fmi2_xml_callbacks_t*) {
    vsim::AllocQuiet quiet;
    VCHECK(x != nullptr && fw->contexts > 0, "call-sequence", "fmi2_import_parse_xml without a context");
    auto d = fw->dirs.find(dir);
    VCHECK(d != fw->dirs.end() && d->second >= 0, "wrong-directory", "asked to parse ", dir);
    auto &s = fw->specs[(std::size_t)d->second];
    VCHECK(s.version == fmi_version_2_0_enu, "wrong-version", "asked to parse an FMU of another version");
    if (!s.parses) return nullptr;
    fw->fmus++;
    return fw->loaded[d->second] = new fmi2_import_t(*fw, d->second, s);
}
void fmi2_import_free(fmi2_import_t* f) {
    vsim::AllocQuiet quiet;
    if (f == nullptr) return;
    f->w.fmus--;
    delete f;
}
fmi2_fmu_kind_enu_t fmi2_import_get_fmu_kind(fmi2_import_t* f) { return f->s.kind; }
jm_status_enu_t fmi2_import_create_dllfmu(fmi2_import_t* f, fmi2_fmu_kind_enu_t k, fmi2_callback_functions_t const*) {
    VCHECK(k == fmi2_fmu_kind_me, "call-sequence", "FMU ", f->id, " loaded as another kind");
    bool there = false;  // the shared library is in the temporary directory
    for (auto &d : fw->dirs) there = there || d.second == f->id;
    VCHECK(there, "call-sequence", "FMU ", f->id, " loaded after its files were removed");
    f->dll = true;
    f->w.dlls++;
    return jm_status_success;
}
void fmi2_import_destroy_dllfmu(fmi2_import_t* f) {
    if (!f->dll) return;
    f->dll = false;
    f->w.dlls--;
}
jm_status_enu_t fmi2_import_instantiate(fmi2_import_t* f, fmi2_string_t, fmi2_type_t type, fmi2_string_t, fmi2_boolean_t) {
    f->in("fmi2_import_instantiate", {NONE});
    VCHECK(f->dll && type == fmi2_model_exchange, "call-sequence", "FMU ", f->id, ": not instantiated for model exchange");
    f->mode = INSTANTIATED;
    f->w.instances++;
    return jm_status_success;
}
void fmi2_import_free_instance(fmi2_import_t* f) {
    if (f->mode == NONE) return;
    f->mode = NONE;
    f->w.instances--;
}
fmi2_status_t fmi2_import_setup_experiment(fmi2_import_t* f, fmi2_boolean_t td, fmi2_real_t tol, fmi2_real_t start,
                                           fmi2_boolean_t stopDefined, fmi2_real_t) {
    f->in("fmi2_import_setup_experiment", {INSTANTIATED});
    VCHECK(!td || tol == f->s.tol, "wrong-tolerance", "FMU ", f->id, " is given the tolerance ", tol);
    VCHECK(start == 0.0 && !stopDefined, "wrong-time", "FMU ", f->id, " is set up to start at ", start);
    f->t = start;
    f->setup = true;
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_set_debug_logging(fmi2_import_t*, fmi2_boolean_t, std::size_t, fmi2_string_t[]) {
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_enter_initialization_mode(fmi2_import_t* f) {
    f->in("fmi2_import_enter_initialization_mode", {INSTANTIATED});
    if (f->fails("fmi2_import_enter_initialization_mode")) return f->fail_status;
    VCHECK(f->setup, "call-sequence", "FMU ", f->id, ": initialized before the experiment is set up");
    f->mode = INIT;
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_exit_initialization_mode(fmi2_import_t* f) {
    vsim::AllocQuiet quiet;
    f->in("fmi2_import_exit_initialization_mode", {INIT});
    if (f->fails("fmi2_import_exit_initialization_mode")) return f->fail_status;
    f->mode = EVENT;
    // The initial state appears in the course of the first event iteration
    f->pending.x = f->s.x0;
    f->pending.arms = f->arms;
    f->base = f->s.x0;
    for (auto &a : f->pending.arms) f->arm(a, 0.0, f->s.x0.data());
    f->pending.next = f->s.first_event;
    f->iterations = (int)f->w.c.below(3) + 1;
    f->settled = false;
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_terminate(fmi2_import_t* f) {
    f->in("fmi2_import_terminate", {INSTANTIATED, EVENT, CONT});
    f->mode = TERMINATED;
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_reset(fmi2_import_t* f) {
    f->w.c.violate("call-sequence", cat("FMU ", f->id, " is reset"));
}
fmi2_status_t fmi2_import_enter_event_mode(fmi2_import_t* f) {
    vsim::AllocQuiet quiet;
    f->in("fmi2_import_enter_event_mode", {CONT});
    if (f->fails("fmi2_import_enter_event_mode")) return f->fail_status;
    VNOTE("  FMU ", f->id, " enters event mode at ", f->t);
    if (f->cur_q != nullptr) {
        VCHECK(f->t == f->cur_q[f->N], "wrong-time", "FMU ", f->id, " has an event at ", f->cur_q[f->N], " but its time is ",
               f->t);
        for (int i = 0; i < f->N; i++)
            VCHECK(f->x[(std::size_t)i] == f->cur_q[i], "wrong-state", "FMU ", f->id, " has an event at ", f->t,
                   " and its variable ", i, " is ", f->x[(std::size_t)i], ", but the integrated state is ", f->cur_q[i]);
    }
    f->mode = EVENT;
    f->must = false;
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_enter_continuous_time_mode(fmi2_import_t* f) {
    vsim::AllocQuiet quiet;
    f->in("fmi2_import_enter_continuous_time_mode", {EVENT});
    if (f->fails("fmi2_import_enter_continuous_time_mode")) return f->fail_status;
    VCHECK(f->settled, "call-sequence", "FMU ", f->id, " continues at ", f->t, " though it needs another event iteration");
    VCHECK(f->cmd == f->cmd_done && f->flag == f->flag_done, "input-ignored", "FMU ", f->id, " continues at ", f->t,
           " without an event iteration after its input was set");
    VCHECK(!f->time_due(f->t) || f->next_event >= f->t - 1e-7, "event-missed", "FMU ", f->id, " continues at ", f->t,
           " after its time event at ", f->next_event);
    f->mode = CONT;
    f->base = f->x;
    f->base_t = f->t;
    f->ders = 0;
    f->kin0 = kinsol_calls;
    f->step_pending = false;
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_new_discrete_states(fmi2_import_t* f, fmi2_event_info_t* e) {
    vsim::AllocQuiet quiet;
    auto &c = f->w.c;
    f->in("fmi2_import_new_discrete_states", {EVENT});
    if (f->fails("fmi2_import_new_discrete_states")) return f->fail_status;
    bool any = false;
    if (!f->settled) {
        any = true;
        if (--f->iterations == 0) f->apply();
    } else {
        bool time = f->time_due(f->t);
        std::vector<bool> hit((std::size_t)f->M);
        any = time || f->step_pending || f->cmd != f->cmd_done || f->flag != f->flag_done;
        for (int i = 0; i < f->M; i++) {
            hit[(std::size_t)i] = f->z_of(f->arms[(std::size_t)i], f->t, f->x.data()) <= 0.0;
            any = any || hit[(std::size_t)i];
        }
        f->step_pending = false;
        f->cmd_done = f->cmd;
        f->flag_done = f->flag;
        if (any) {
            f->count++;
            f->draw_change(time, hit);
            f->iterations = c.chance(1, 2) ? (int)c.below(4) : 0;
            f->settled = false;
            if (f->iterations == 0) {
                f->apply();
            } else {
                // What is there between iterations means nothing
                for (auto &v : f->x) v += 1.0;
                c.fault("event-iteration-repeated");
            }
        }
    }
    if (f->settled) {
        if (any || !f->s.lazy) {
            e->newDiscreteStatesNeeded = fmi2_false;
            e->terminateSimulation = fmi2_false;
            e->nominalsOfContinuousStatesChanged = fmi2_false;
            e->valuesOfContinuousStatesChanged = any;
            e->nextEventTimeDefined = f->next_event >= 0.0;
            e->nextEventTime = f->next_event >= 0.0 ? f->next_event : -5.0;
        } else {
            // As some FMUs do it when nothing happens
            c.fault("event-info-left-alone");
            if (f->next_event >= 0.0) {
                e->nextEventTimeDefined = fmi2_true;
                e->nextEventTime = f->next_event;
            }
        }
    } else {
        e->newDiscreteStatesNeeded = fmi2_true;
        e->terminateSimulation = fmi2_false;
        e->nominalsOfContinuousStatesChanged = fmi2_false;
        e->valuesOfContinuousStatesChanged = fmi2_false;
        e->nextEventTimeDefined = f->iterations % 2 == 0;
        e->nextEventTime = f->t + 0.03125;
    }
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_set_time(fmi2_import_t* f, fmi2_real_t t) {
    f->in("fmi2_import_set_time", {EVENT, CONT});
    if (f->fails("fmi2_import_set_time")) return f->fail_status;
    VCHECK(f->mode == CONT || t == f->t, "call-sequence", "FMU ", f->id, ": time set to ", t, " in event mode");
    f->t = t;
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_set_continuous_states(fmi2_import_t* f, fmi2_real_t const x[], std::size_t n) {
    f->in("fmi2_import_set_continuous_states", {CONT});
    if (f->fails("fmi2_import_set_continuous_states")) return f->fail_status;
    VCHECK((int)n == f->N, "wrong-size", n, " states set, FMU ", f->id, " has ", f->N);
    std::copy(x, x + n, f->x.begin());
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_get_continuous_states(fmi2_import_t* f, fmi2_real_t x[], std::size_t n) {
    f->in("fmi2_import_get_continuous_states", {INIT, EVENT, CONT, TERMINATED});
    if (f->fails("fmi2_import_get_continuous_states")) return f->fail_status;
    VCHECK((int)n == f->N, "wrong-size", n, " states asked for, FMU ", f->id, " has ", f->N);
    std::copy(f->x.begin(), f->x.end(), x);
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_get_nominals_of_continuous_states(fmi2_import_t* f, fmi2_real_t x[], std::size_t n) {
    f->in("fmi2_import_get_nominals_of_continuous_states", {INSTANTIATED, EVENT, CONT, TERMINATED});
    for (std::size_t i = 0; i < n; i++) x[i] = 1.0;
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_get_derivatives(fmi2_import_t* f, fmi2_real_t dx[], std::size_t n) {
    f->in("fmi2_import_get_derivatives", {EVENT, CONT, TERMINATED});
    if (f->fails("fmi2_import_get_derivatives")) return f->fail_status;
    VCHECK((int)n == f->N, "wrong-size", n, " derivatives asked for, FMU ", f->id, " has ", f->N);
    f->ders++;
    f->der(f->t, f->x.data(), dx);
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_get_event_indicators(fmi2_import_t* f, fmi2_real_t z[], std::size_t n) {
    f->in("fmi2_import_get_event_indicators", {INIT, EVENT, CONT, TERMINATED});
    if (f->fails("fmi2_import_get_event_indicators")) return f->fail_status;
    VCHECK((int)n == f->M, "wrong-size", n, " event indicators asked for, FMU ", f->id, " has ", f->M);
    for (int i = 0; i < f->M; i++) z[i] = f->z_of(f->arms[(std::size_t)i], f->t, f->x.data());
    return fmi2_status_ok;
}
static void check_trajectory(fmi2_import_t* f, double t, double const* x, char const* where);
fmi2_status_t fmi2_import_completed_integrator_step(fmi2_import_t* f, fmi2_boolean_t, fmi2_boolean_t* enter,
                                                    fmi2_boolean_t* terminate) {
    vsim::AllocQuiet quiet;
    auto &c = f->w.c;
    f->in("fmi2_import_completed_integrator_step", {CONT});
    if (f->fails("fmi2_import_completed_integrator_step")) return f->fail_status;
    VNOTE("  FMU ", f->id, " completed a step at ", f->t);
    VCHECK(f->t >= f->last_step, "time-backwards", "FMU ", f->id, ": step completed at ", f->t, " after one at ",
           f->last_step);
    VCHECK(f->w.direct || !f->must || f->t <= f->must_t + 1e-9 * (1.0 + f->t), "event-missed", "FMU ", f->id, ": step completed at ", f->t,
           ", but the FMU was not told of the event at ", f->must_t);
    f->last_step = f->t;
    if (f->w.direct) {
        for (int i = 0; f->cur_q != nullptr && i <= f->N; i++) {
            double v = i < f->N ? f->x[(std::size_t)i] : f->t;
            VCHECK(v == f->cur_q[i], "wrong-state", "FMU ", f->id, ": a step completed with ", v, " for variable ", i,
                   " of the state, which is ", f->cur_q[i]);
        }
    } else {
        check_trajectory(f, f->t, f->x.data(), "a completed step");
    }
    *enter = fmi2_false;
    *terminate = fmi2_false;
    if (!f->must) f->must_t = f->t;
    f->must = f->must || f->time_due(f->t);
    for (auto &a : f->arms) f->must = f->must || f->z_of(a, f->t, f->x.data()) <= 0.0;
    if (f->s.step_events && f->t > f->step_at && c.chance(1, 8)) {
        *enter = fmi2_true;
        f->step_pending = f->must = true;
        f->step_at = f->t;
        c.fault("step-event");
    }
    c.nontrivial = true;
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_get_directional_derivative(fmi2_import_t* f, fmi2_value_reference_t const v_ref[], std::size_t nv,
                                                     fmi2_value_reference_t const z_ref[], std::size_t nz,
                                                     fmi2_real_t const dv[], fmi2_real_t dz[]) {
    vsim::AllocQuiet quiet;
    f->in("fmi2_import_get_directional_derivative", {INIT, EVENT, CONT, TERMINATED});
    if (f->fails("fmi2_import_get_directional_derivative")) return f->fail_status;
    VCHECK(f->s.has_dd, "call-sequence", "FMU ", f->id, " has no directional derivatives");
    int N = f->N;
    std::vector<double> J((std::size_t)(N * N), 0.0);
    for (auto &b : f->s.blocks) b.jac(f->x.data(), J.data(), N);
    for (std::size_t i = 0; i < nz; i++) {
        int r = (int)z_ref[i] - N;
        VCHECK(r >= 0 && r < N, "wrong-reference", "FMU ", f->id, ": derivative of variable ", z_ref[i], " asked for");
        dz[i] = 0.0;
        for (std::size_t k = 0; k < nv; k++) {
            int q = (int)v_ref[k];
            VCHECK(q >= 0 && q < N, "wrong-reference", "FMU ", f->id, ": derivative by variable ", v_ref[k], " asked for");
            dz[i] += J[(std::size_t)(q * N + r)] * dv[k];
        }
    }
    return fmi2_status_ok;
}
std::size_t fmi2_import_get_number_of_continuous_states(fmi2_import_t* f) { return (std::size_t)f->N; }
std::size_t fmi2_import_get_number_of_event_indicators(fmi2_import_t* f) { return (std::size_t)f->M; }
unsigned int fmi2_import_get_capability(fmi2_import_t* f, fmi2_capabilities_enu_t k) {
    return k == fmi2_me_providesDirectionalDerivatives && f->s.has_dd;
}
static void get_ok(fmi2_import_t* f, char const* call) {
    f->in(call, {INIT, EVENT, CONT, TERMINATED});
    f->accesses++;
}
fmi2_status_t fmi2_import_get_real(fmi2_import_t* f, fmi2_value_reference_t const vr[], std::size_t n, fmi2_real_t v[]) {
    vsim::AllocQuiet quiet;
    get_ok(f, "fmi2_import_get_real");
    if (f->fails("fmi2_import_get_real")) return f->fail_status;
    std::vector<double> d((std::size_t)f->N);
    f->der(f->t, f->x.data(), d.data());
    for (std::size_t i = 0; i < n; i++) {
        int r = (int)vr[i];
        VCHECK(r <= 2 * f->N, "wrong-reference", "FMU ", f->id, ": real variable ", r, " asked for");
        v[i] = r < f->N ? f->x[(std::size_t)r] : (r < 2 * f->N ? d[(std::size_t)(r - f->N)] : f->u);
    }
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_get_integer(fmi2_import_t* f, fmi2_value_reference_t const vr[], std::size_t n,
                                      fmi2_integer_t v[]) {
    get_ok(f, "fmi2_import_get_integer");
    if (f->fails("fmi2_import_get_integer")) return f->fail_status;
    for (std::size_t i = 0; i < n; i++) {
        VCHECK(vr[i] <= 2, "wrong-reference", "FMU ", f->id, ": integer variable ", vr[i], " asked for");
        v[i] = vr[i] == 0 ? f->count : (vr[i] == 1 ? f->cmd : f->level);
    }
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_get_boolean(fmi2_import_t* f, fmi2_value_reference_t const vr[], std::size_t n,
                                      fmi2_boolean_t v[]) {
    get_ok(f, "fmi2_import_get_boolean");
    if (f->fails("fmi2_import_get_boolean")) return f->fail_status;
    for (std::size_t i = 0; i < n; i++) {
        VCHECK(vr[i] <= 1, "wrong-reference", "FMU ", f->id, ": boolean variable ", vr[i], " asked for");
        v[i] = vr[i] == 0 ? f->flag : f->count % 2;
    }
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_set_real(fmi2_import_t* f, fmi2_value_reference_t const vr[], std::size_t n, fmi2_real_t const v[]) {
    f->in("fmi2_import_set_real", {INIT, EVENT, CONT});
    f->accesses++;
    if (f->fails("fmi2_import_set_real")) return f->fail_status;
    for (std::size_t i = 0; i < n; i++) {
        VCHECK((int)vr[i] == 2 * f->N, "wrong-reference", "FMU ", f->id, ": real variable ", vr[i], " set");
        f->u = v[i];
    }
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_set_integer(fmi2_import_t* f, fmi2_value_reference_t const vr[], std::size_t n,
                                      fmi2_integer_t const v[]) {
    f->in("fmi2_import_set_integer", {INIT, EVENT});
    f->accesses++;
    if (f->fails("fmi2_import_set_integer")) return f->fail_status;
    for (std::size_t i = 0; i < n; i++) {
        VCHECK(vr[i] == 1 || vr[i] == 2, "wrong-reference", "FMU ", f->id, ": integer variable ", vr[i], " set");
        (vr[i] == 1 ? f->cmd : f->level) = v[i];
    }
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_set_boolean(fmi2_import_t* f, fmi2_value_reference_t const vr[], std::size_t n,
                                      fmi2_boolean_t const v[]) {
    f->in("fmi2_import_set_boolean", {INIT, EVENT});
    f->accesses++;
    if (f->fails("fmi2_import_set_boolean")) return f->fail_status;
    for (std::size_t i = 0; i < n; i++) {
        VCHECK(vr[i] == 0, "wrong-reference", "FMU ", f->id, ": boolean variable ", vr[i], " set");
        f->flag = v[i];
    }
    return fmi2_status_ok;
}
fmi2_import_variable_list_t* fmi2_import_get_variable_list(fmi2_import_t* f, int) {
    vsim::AllocQuiet quiet;
    f->w.lists++;
    return new fmi2_import_variable_list_t{f};
}
void fmi2_import_free_variable_list(fmi2_import_variable_list_t* l) {
    vsim::AllocQuiet quiet;
    if (l == nullptr) return;
    l->of->w.lists--;
    delete l;
}
std::size_t fmi2_import_get_variable_list_size(fmi2_import_variable_list_t* l) { return l->of->vars.size(); }
fmi2_import_variable_t* fmi2_import_get_variable(fmi2_import_variable_list_t* l, std::size_t i) { return &l->of->vars.at(i); }
fmi2_import_variable_t* fmi2_import_get_variable_by_name(fmi2_import_t* f, char const* name) {
    for (auto &v : f->vars)
        if (v.name == name) return &v;
    return nullptr;
}
char const* fmi2_import_get_variable_name(fmi2_import_variable_t* v) { return v->name.c_str(); }
fmi2_value_reference_t fmi2_import_get_variable_vr(fmi2_import_variable_t* v) { return v->vr; }
fmi2_base_type_enu_t fmi2_import_get_variable_base_type(fmi2_import_variable_t* v) { return v->type; }
fmi2_variability_enu_t fmi2_import_get_variability(fmi2_import_variable_t* v) { return v->variability; }
fmi2_causality_enu_t fmi2_import_get_causality(fmi2_import_variable_t* v) { return v->causality; }

// ---- The model that wraps the FMU -----------------------------------------
namespace num {
namespace {
struct Wrap : adevs::ModelExchange<V> {
    FW &w;
    int id;
    fmi2_import_t* f = nullptr;
    int solver = 0, loc = 0;
    double tol_l = 1e-4, stol = 1e-6, h_max = 1.0;
    double lag = 0.0;  // how much the clock of the FMU is behind the simulation
    double T0 = 0.0;
    bool out_pending = false, called_event = false;
    std::vector<bool> out_flags;
    std::vector<double> out_q, after;
    long out_id = 0;
    int next_cmd = 1;
    std::multiset<V> inbox, taken;
    adevs::pin_t in, out;
    Wrap(FW &w, int id, char const* file, double tol) : adevs::ModelExchange<V>(file, tol), w(w), id(id) {}

    double allowed(double dt) const {
        double mag = 1.0;
        for (double x : f->base) mag = std::max(mag, std::fabs(x));
        mag += dt;
        double L = f->rate();
        double a;
        if (solver == TRAP) {
            double n = (double)(kinsol_calls - f->kin0) + 2.0;
            a = n * (4e-5 + 0.3 * std::pow(h_max * L, 3.0)) * mag;
        } else {
            double n = (double)f->ders / (solver == RK ? 6.0 : 2.0) + 2.0;
            a = 2.0 * stol * n + 1e-12 * mag * n;
        }
        if (loc == L_SPLINE) a += std::pow(h_max * L, 4.0) / 100.0 * mag + 1e-12 * mag;
        for (auto &bl : f->s.blocks)
            if (bl.kind == Block::CHAIN) return a * std::pow(1.0 + bl.a * dt, 2.0);
        return a;
    }
    void check_q(double const* q, char const* where, double slip) {
        int N = f->N;
        double eps = 1e-9 * (1.0 + w.now) + (solver == TRAP ? 1e-5 * (double)(kinsol_calls - f->kin0 + 1) : 0.0);
        double l = w.now - q[N] - lag;
        VCHECK(l <= slip + eps && l >= -eps, "wrong-time", "FMU ", id, ": ", where, " at ", w.now, " gets the time ", q[N],
               ", it was ", lag, " behind before");
        check_trajectory(f, q[N], q, where);
    }
    void check_fmu(double const* q, char const* where) {
        VCHECK(f->t == q[f->N], "wrong-time", "FMU ", id, ": ", where, " at ", w.now, ": the time of the FMU is ", f->t,
               ", that of the model ", q[f->N]);
        for (int i = 0; i < f->N; i++) {
            double x = std::any_cast<double>(get_variable(cat("x", i)));
            VCHECK(x == q[i], "wrong-state", "FMU ", id, ": ", where, " at ", w.now, ": variable ", i, " of the FMU is ", x,
                   ", but the state of the model is ", q[i]);
        }
    }
    bool due(double time) const { return f->time_due(time) || f->step_pending; }
    void check_events(double const* q, bool const* ev, char const* where) {
        int M = f->M;
        bool any = ev[M];
        double err = allowed(w.now - T0);
        for (int i = 0; i < M; i++) {
            auto &a = f->arms[(std::size_t)i];
            double z = f->z_of(a, q[f->N], q);
            VCHECK(ev[i] == (z <= 0.0), "event-flags", "FMU ", id, ": ", where, " at ", w.now, ": state event ", i, " is ",
                   ev[i] ? "set" : "not set", " but its indicator is ", z);
            if (!ev[i]) continue;
            any = true;
            double late = a.dir * ((a.var < 0 ? q[f->N] : q[a.var]) - a.thr), speed = 1.0;
            if (a.var >= 0) {
                std::vector<double> dq((std::size_t)f->N);
                f->der(q[f->N], q, dq.data());
                speed = std::fabs(dq[(std::size_t)a.var]);
                if (a.var == 0) speed += f->s.ramp * 3.0;
            }
            double band =
                (loc == L_BISECT || loc == L_LINEAR) ? tol_l / std::fabs(a.scale) : 1.5 * tol_l * speed * std::exp(1.0);
            VCHECK(late <= band + 2.0 * err, "event-late", "FMU ", id, ": ", where, " at ", w.now, ": state event ", i,
                   " is reported ", late, " beyond its threshold, allowed ", band + 2.0 * err);
        }
        if (ev[M])
            VCHECK(due(q[f->N]), "event-flags", "FMU ", id, ": ", where, " at ", w.now,
                   ": time event reported, but it is due at ", f->next_event, " on a clock of ", q[f->N]);
        else
            VCHECK(f->next_event < 0.0 || q[f->N] <= f->next_event + 1e-9 * (1.0 + w.now), "event-missed", "FMU ", id, ": ",
                   where, " at ", w.now, ": the time event due at ", f->next_event, " did not happen, the clock is ",
                   q[f->N]);
        VCHECK(any, "event-flags", "FMU ", id, ": ", where, " at ", w.now, " without an event");
    }
    void check_quiet(double const* q, char const* where) {
        for (auto &a : f->arms)
            VCHECK(f->z_of(a, q[f->N], q) > 0.0, "event-missed", "FMU ", id, ": ", where, " at ", w.now,
                   ": an event indicator crossed zero, but the state event did not happen");
        VCHECK(f->next_event < 0.0 || q[f->N] <= f->next_event + 1e-9 * (1.0 + w.now), "event-missed", "FMU ", id, ": ",
               where, " at ", w.now, ": the time event due at ", f->next_event, " did not happen, the clock is ", q[f->N]);
    }
    void take(std::list<adevs::PinValue<V>> const &xb, char const* where) {
        for (auto &x : xb) {
            VCHECK(x.pin == in, "wrong-input", "FMU ", id, ": ", where, " gets a value on a foreign pin");
            taken.insert(x.value);
        }
        VCHECK(taken == inbox, "wrong-input", "FMU ", id, ": ", where, " at ", w.now, " gets ", xb.size(), " values, ",
               inbox.size(), " were delivered");
    }
    void output_func(double const* q, bool const* ev, std::list<adevs::PinValue<V>> &yb) override {
        vsim::AllocQuiet quiet;
        auto &c = w.c;
        c.spend();
        VNOTE("t=", w.now, " FMU ", id, " output, clock ", q[f->N]);
        check_q(q, "output_func", 2.0 * tol_l + 1e-6);
        check_events(q, ev, "output_func");
        check_fmu(q, "output_func");
        VCHECK(get_time() == q[f->N], "wrong-time", "FMU ", id, ": get_time() is ", get_time(), " at ", w.now,
               ", the state is that for ", q[f->N]);
        VCHECK(!out_pending, "output-repeated", "FMU ", id, ": output computed twice for one event, at ", w.now);
        adevs::ModelExchange<V>::output_func(q, ev, yb);
        out_pending = true;
        out_flags.assign(ev, ev + f->M + 1);
        out_q.assign(q, q + f->N + 1);
        out_id = w.next_id++;
        w.outs[out_id] = FW::Out{id, w.now, false, 0};
        c.log("output", (u64)id, (u64)out_id, (u64)(w.now * 1e6));
        yb.push_back(adevs::PinValue<V>(out, out_id));
    }
    void event_output(double const* q, bool const* ev, char const* where) {
        VCHECK(out_pending, "output-missing", "FMU ", id, ": ", where, " at ", w.now, " without output before it");
        out_pending = false;
        VCHECK(std::equal(out_flags.begin(), out_flags.end(), ev), "event-flags", "FMU ", id, ": ", where, " at ", w.now,
               " has other flags than output_func");
        VCHECK(std::equal(out_q.begin(), out_q.end(), q), "wrong-state", "FMU ", id, ": ", where, " at ", w.now,
               " has another state than output_func");
        w.outs[out_id].caused = true;
        VCHECK(w.outs[out_id].at == w.now, "output-time", "FMU ", id, ": output was computed at ", w.outs[out_id].at,
               " for an event at ", w.now);
    }
    // Inputs of the FMU change in the middle of an event
    // A name that the FMU does not have is refused, and no variable used in its place
    void ask_unknown() {
        auto &c = w.c;
        static char const* const names[] = {"x", "", "X0", "der(x0", "u ", "Count", "no such variable"};
        std::string name = names[c.below(7)];
        u64 const before = f->accesses;
        bool refused = false, set = c.chance(1, 2);
        c.fault("unknown-variable");
        try {
            if (set)
                set_variable(name, 0.5);
            else
                get_variable(name);
        } catch (std::exception &) {
            refused = true;
        }
        VCHECK(refused && f->accesses == before, "wrong-variable", "FMU ", id, ": it has no variable '", name, "' to ",
               set ? "set" : "get");
    }
    template <typename F>
    void event(double* q, char const* where, bool input, F parent) {
        auto &c = w.c;
        VCHECK(!called_event, "event-repeated", "FMU ", id, ": two discrete changes in one transition at ", w.now);
        int before = f->count;
        bool had = due(q[f->N]);
        for (auto &a : f->arms) had = had || f->z_of(a, q[f->N], q) <= 0.0;
        lag = w.now - q[f->N];
        f->cur_q = q;
        {
            vsim::AllocLoud loud;
            parent();
        }
        f->cur_q = nullptr;
        VCHECK(f->mode == EVENT || f->mode == CONT, "call-sequence", "FMU ", id, " is in ", m_name[f->mode]);
        VCHECK(!had || f->count > before, "event-missed", "FMU ", id, ": ", where, " at ", w.now,
               " did not let the FMU handle its event");
        check_fmu(q, where);
        if (input || c.chance(1, 4)) {
            c.count("inputs-set");
            int what = (int)c.below(5);
            if (c.chance(1, 8)) ask_unknown();
            vsim::AllocLoud loud;
            if (what == 4) {
                int level = 1 + f->level % 3;
                set_variable("level", level);
                VCHECK(std::any_cast<int>(get_variable("level")) == level, "wrong-variable", "FMU ", id,
                       ": level was set to ", level);
            }
            if (what == 0 || what == 3) {
                double u = 0.25 * (double)c.range(-4, 8);
                set_variable("u", u);
                VCHECK(std::any_cast<double>(get_variable("u")) == u, "wrong-variable", "FMU ", id, ": u was set to ", u);
            }
            if (what == 1 || what == 3) {
                int cmd = next_cmd++;
                set_variable("cmd", cmd);
                VCHECK(std::any_cast<int>(get_variable("cmd")) == cmd, "wrong-variable", "FMU ", id, ": cmd was set to ",
                       cmd);
            }
            if (what == 2) {
                int flag = 1 - f->flag;
                set_variable("flag", flag);
                VCHECK(std::any_cast<int>(get_variable("flag")) == flag, "wrong-variable", "FMU ", id, ": flag was set to ",
                       flag);
            }
            VCHECK(f->cmd == next_cmd - 1, "wrong-variable", "FMU ", id, ": cmd is ", f->cmd, " but was set to ",
                   next_cmd - 1);
            parent();
        }
        check_fmu(q, where);
        VCHECK(f->settled, "call-sequence", "FMU ", id, ": ", where, " at ", w.now,
               " ended though the FMU needs another event iteration");
        after.assign(q, q + f->N + 1);
        T0 = w.now;
        called_event = true;
        c.state(vsim::mix((u64)solver, (u64)loc, (u64)f->count, (u64)f->M));
    }
    void internal_event(double* q, bool const* ev) override {
        vsim::AllocQuiet quiet;
        w.c.spend();
        VNOTE("t=", w.now, " FMU ", id, " internal event, clock ", q[f->N]);
        w.c.log("internal", (u64)id, (u64)(w.now * 1e6));
        VCHECK(inbox.empty(), "wrong-input", "FMU ", id, ": internal event at ", w.now, " though input was delivered");
        check_q(q, "internal_event", 0.0);
        check_events(q, ev, "internal_event");
        event_output(q, ev, "internal_event");
        event(q, "internal_event", false, [&] { adevs::ModelExchange<V>::internal_event(q, ev); });
        w.c.count("internal-events");
    }
    void external_event(double* q, double e, std::list<adevs::PinValue<V>> const &xb) override {
        vsim::AllocQuiet quiet;
        w.c.spend();
        VNOTE("t=", w.now, " FMU ", id, " external event, clock ", q[f->N]);
        w.c.log("external", (u64)id, (u64)(w.now * 1e6), xb.size());
        check_q(q, "external_event", 0.0);
        check_quiet(q, "external_event");
        VCHECK(!out_pending, "output-repeated", "FMU ", id, ": output was computed for an external event, at ", w.now);
        take(xb, "external_event");
        event(q, "external_event", true, [&] { adevs::ModelExchange<V>::external_event(q, e, xb); });
        w.c.count("external-events");
    }
    void confluent_event(double* q, bool const* ev, std::list<adevs::PinValue<V>> const &xb) override {
        vsim::AllocQuiet quiet;
        w.c.spend();
        VNOTE("t=", w.now, " FMU ", id, " confluent event, clock ", q[f->N]);
        w.c.log("confluent", (u64)id, (u64)(w.now * 1e6), xb.size());
        check_q(q, "confluent_event", 2.0 * tol_l + 1e-6);
        check_events(q, ev, "confluent_event");
        event_output(q, ev, "confluent_event");
        take(xb, "confluent_event");
        event(q, "confluent_event", true, [&] { adevs::ModelExchange<V>::confluent_event(q, ev, xb); });
        w.c.count("confluent-events");
    }
    void check_jacobian(double const* q) {
        int n = f->N + 1;
        VCHECK(get_jacobian(q, nullptr) == f->s.has_dd, "wrong-jacobian", "FMU ", id, ": support for a Jacobian is reported ",
               "wrongly");
        if (!f->s.has_dd) return;
        std::vector<double> J((std::size_t)(n * n) + 4, 123.5), want((std::size_t)(n * n), 0.0);
        VCHECK(get_jacobian(q, J.data() + 2), "wrong-jacobian", "FMU ", id, ": no Jacobian");
        VCHECK(J[0] == 123.5 && J[1] == 123.5 && J[(std::size_t)(n * n) + 2] == 123.5 && J[(std::size_t)(n * n) + 3] == 123.5,
               "wrong-jacobian", "FMU ", id, ": written outside of the Jacobian");
        for (auto &b : f->s.blocks) b.jac(q, want.data(), n);
        for (int col = 0; col < n; col++)
            for (int row = 0; row < n; row++) {
                if (col == f->N && row < f->N) continue;  // FMUs do not provide derivatives by time
                double got = J[(std::size_t)(col * n + row) + 2];
                VCHECK(std::fabs(got - want[(std::size_t)(col * n + row)]) <= 1e-12, "wrong-jacobian", "FMU ", id,
                       ": the derivative of equation ", row, " by variable ", col, " is ", want[(std::size_t)(col * n + row)],
                       " but ", got, " is reported (", n, " variables)");
            }
        w.c.count("jacobians");
    }
};

struct FCollector : adevs::Atomic<V> {
    FW &w;
    explicit FCollector(FW &w) : w(w) {}
    double ta() override { return adevs_inf<double>(); }
    void delta_int() override {}
    void output_func(std::list<adevs::PinValue<V>> &) override {}
    void delta_ext(double, std::list<adevs::PinValue<V>> const &xb) override {
        for (auto &x : xb) {
            auto o = w.outs.find(x.value);
            VCHECK(o != w.outs.end(), "stray-output", "value ", x.value, " arrived that no model sent");
            VCHECK(++o->second.seen == 1, "output-repeated", "output ", x.value, " of FMU ", o->second.from,
                   " arrived again at ", w.now);
            VCHECK(w.now == o->second.at, "output-time", "output ", x.value, " of FMU ", o->second.from, " at ",
                   o->second.at, " arrived at ", w.now);
        }
    }
    void delta_conf(std::list<adevs::PinValue<V>> const &xb) override { delta_ext(0.0, xb); }
};

struct FWatch : adevs::EventListener<V> {
    FW &w;
    std::map<adevs::Atomic<V>*, int> who;
    std::vector<adevs::Hybrid<V>*> hy;
    explicit FWatch(FW &w) : w(w) {}
    void outputEvent(adevs::Atomic<V> &, adevs::PinValue<V> &, double) override {}
    void inputEvent(adevs::Atomic<V> &m, adevs::PinValue<V> &v, double) override {
        vsim::AllocQuiet quiet;
        auto i = who.find(&m);
        if (i != who.end()) w.ws[(std::size_t)i->second]->inbox.insert(v.value);
    }
    void stateChange(adevs::Atomic<V> &m, double) override {
        vsim::AllocQuiet quiet;
        auto i = who.find(&m);
        if (i == who.end()) return;
        auto &h = *w.ws[(std::size_t)i->second];
        double const* q = hy[(std::size_t)i->second]->getState();
        VCHECK(h.taken == h.inbox, "input-lost", "FMU ", h.id, ": ", h.inbox.size(), " inputs were delivered at ", w.now,
               " but ", h.taken.size(), " reached the model");
        if (!h.called_event) {
            h.check_q(q, "the state", 0.0);
            h.check_quiet(q, "the state");
        } else {
            VCHECK(std::equal(h.after.begin(), h.after.end(), q), "wrong-state", "FMU ", h.id,
                   ": the state after an event at ", w.now, " is not what the event left");
        }
        // What a user of the model can see now
        h.check_fmu(q, "after a transition");
        VCHECK(h.get_time() == q[h.f->N], "wrong-time", "FMU ", h.id, ": get_time() is ", h.get_time(), " after a transition at ",
               w.now, ", the state is that for ", q[h.f->N]);
        VCHECK(std::any_cast<int>(h.get_variable("count")) == h.f->count &&
                   std::any_cast<int>(h.get_variable("cmd")) == h.f->cmd &&
                   std::any_cast<int>(h.get_variable("flag")) == h.f->flag &&
                   std::any_cast<int>(h.get_variable("odd")) == h.f->count % 2 &&
                   std::any_cast<int>(h.get_variable("level")) == h.f->level &&
                   std::any_cast<double>(h.get_variable("u")) == h.f->u,
               "wrong-variable", "FMU ", h.id, ": variables of the FMU are misread");
        std::vector<double> d((std::size_t)h.f->N);
        h.f->der(q[h.f->N], q, d.data());
        for (int k = 0; k < h.f->N; k++)
            VCHECK(std::any_cast<double>(h.get_variable(cat("der(x", k, ")"))) == d[(std::size_t)k], "wrong-variable", "FMU ",
                   h.id, ": the derivative of variable ", k, " is misread");
        if (w.c.chance(1, 6)) h.check_jacobian(q);
        h.called_event = false;
        h.inbox.clear();
        h.taken.clear();
    }
};
}  // namespace
}  // namespace num

static void check_trajectory(fmi2_import_t* f, double t, double const* x, char const* where) {
    auto &h = *f->w.ws[(std::size_t)f->id];
    std::vector<double> want((std::size_t)f->N);
    f->exact(t, want.data());
    double a = h.allowed(t - f->base_t);
    for (int i = 0; i < f->N; i++)
        VCHECK(std::fabs(x[i] - want[(std::size_t)i]) <= a, "wrong-state", "FMU ", f->id, ": ", where, " at ", t, " gets ",
               x[i], " for variable ", i, ", which should be ", want[(std::size_t)i], " (allowed ", a, ")");
}

namespace num {
static void draw_spec(Ctx &c, Spec &s, int M) {
    std::vector<double> q0;
    draw_blocks(c, 3, true, s.blocks, q0);
    for (auto &x : s.blocks) {
        if (x.kind == Block::QUAD) x.kind = Block::DECAY;
        if (x.kind == Block::CHAIN)
            for (int k = 0; k < 3; k++) q0[(std::size_t)(x.at + k)] = std::fabs(q0[(std::size_t)(x.at + k)]);
    }
    // The first variable is driven by time and by the input
    static double const ramps[] = {1.0, 0.5, 2.0};
    s.ramp = ramps[c.below(3)];
    q0[0] = 0.125 * (double)c.range(0, 8);
    s.blocks.erase(s.blocks.begin());
    if (s.blocks.empty()) {
        Block b;
        b.kind = Block::DECAY;
        b.a = 0.5;
        b.at = 1;
        s.blocks.push_back(b);
        q0.push_back(1.0);
    }
    s.x0 = q0;
    s.mono.push_back(-1);
    for (auto &x : s.blocks)
        if (x.kind != Block::OSC)
            for (int k = 0; k < x.n; k++) s.mono.push_back(x.at + k);
    s.arms.resize((std::size_t)M);
    for (auto &a : s.arms) {
        a.var = s.mono[c.below((u32)s.mono.size())];
        static double const scales[] = {1.0, 10.0, 0.1};
        a.scale = scales[c.below(3)];
    }
    if (c.chance(1, 2)) s.first_event = 0.125 * (double)c.range(0, 12);
    s.has_dd = c.chance(1, 2);
    s.lazy = c.chance(1, 2);
    s.step_events = c.chance(1, 3);
}

// The functions that a solver, an event locator and Hybrid call, called in an
// arbitrary order and with arbitrary states: what they answer may depend only
// on the state they are given.
static void fmi_direct(Ctx &c) {
    vsim::alloc_fill_seed(c.below(256));
    vsim::alloc_epoch_begin();
    c.budget = 1500000;
    FW w(c);
    fw = &w;
    w.direct = true;
    Disarm disarm;
    c.feature("direct-calls");
    int n = c.range(1, 2);
    w.specs.resize((std::size_t)n);
    {
        struct Node {
            std::unique_ptr<Wrap> s;
            std::vector<double> q;  // where the simulation is
            std::vector<std::vector<double>> pool;
        };
        std::vector<Node> nodes((std::size_t)n);
        for (int i = 0; i < n; i++) {
            Spec &sp = w.specs[(std::size_t)i];
            draw_spec(c, sp, c.range(0, 4));
            if (c.chance(3, 4)) {
                Block b;
                b.kind = Block::QUAD;
                b.a = 0.25 * (double)c.range(1, 8);
                b.at = (int)sp.x0.size();
                sp.blocks.push_back(b);
                sp.x0.push_back(0.125 * (double)c.range(1, 16));
            }
            sp.has_dd = c.chance(3, 4);
            auto &nd = nodes[(std::size_t)i];
            {
                vsim::AllocLoud loud;
                std::string file = cat("fmu-", i);
                nd.s.reset(new Wrap(w, i, file.c_str(), sp.tol));
            }
            VCHECK(w.loaded.count(i) == 1, "wrong-file", "FMU ", i, " was not loaded");
            nd.s->f = w.loaded[i];
            w.ws.push_back(nd.s.get());
            nd.q.assign(sp.x0.size() + 1, 99.0);
            vsim::AllocLoud loud;
            nd.s->init(nd.q.data());
        }
        int calls = c.range(10, c.thorough ? 200 : 80);
        for (int k = 0; k < calls; k++) {
            auto &nd = nodes[c.below((u32)n)];
            Wrap &s = *nd.s;
            auto* f = s.f;
            int N = f->N, M = f->M;
            c.spend();
            // Where: here, at a place seen before, or at a new one, possibly at the same time
            std::vector<double> at = nd.q;
            if (!nd.pool.empty() && c.chance(1, 2)) {
                at = nd.pool[c.below((u32)nd.pool.size())];
                if (c.chance(1, 3)) at[(std::size_t)N] = nd.q[(std::size_t)N];
            } else if (c.chance(3, 4)) {
                for (int i = 0; i < N; i++)
                    if (c.chance(1, 2)) at[(std::size_t)i] += 0.0625 * (double)c.range(-16, 16);
                if (c.chance(1, 2)) at[(std::size_t)N] += 0.03125 * (double)c.range(0, 16);
            }
            if (nd.pool.size() < 8) nd.pool.push_back(at);
            std::vector<double> const given = at;
            int what = (int)c.below(10);
            std::vector<double> out((std::size_t)std::max(N + 1, M) + 2, 123.5);
            vsim::AllocLoud loud;
            if (what <= 2) {
                c.log("der", (u64)s.id);
                s.der_func(at.data(), out.data() + 1);
                std::vector<double> want((std::size_t)N + 1);
                f->der(at[(std::size_t)N], at.data(), want.data());
                want[(std::size_t)N] = 1.0;
                for (int i = 0; i <= N; i++)
                    VCHECK(out[(std::size_t)i + 1] == want[(std::size_t)i], "wrong-derivative", "FMU ", s.id,
                           ": the derivative of variable ", i, " is ", want[(std::size_t)i], " but ", out[(std::size_t)i + 1],
                           " is reported");
                VCHECK(out[0] == 123.5 && out[(std::size_t)N + 2] == 123.5, "wrong-derivative", "FMU ", s.id,
                       ": written outside of the derivatives");
            } else if (what <= 4) {
                c.log("events", (u64)s.id);
                s.state_event_func(at.data(), out.data() + 1);
                for (int i = 0; i < M; i++) {
                    double want = f->z_of(f->arms[(std::size_t)i], at[(std::size_t)N], at.data());
                    VCHECK(out[(std::size_t)i + 1] == want, "wrong-indicator", "FMU ", s.id, ": event indicator ", i, " is ",
                           want, " but ", out[(std::size_t)i + 1], " is reported");
                }
                VCHECK(out[0] == 123.5 && out[(std::size_t)M + 1] == 123.5, "wrong-indicator", "FMU ", s.id,
                       ": written outside of the event indicators");
            } else if (what == 5) {
                c.log("time", (u64)s.id);
                double got = s.time_event_func(at.data());
                if (f->step_pending)
                    VCHECK(got <= 1e-9 + std::max(0.0, nd.q[(std::size_t)N] - at[(std::size_t)N]), "event-missed", "FMU ", s.id,
                           ": an event is pending, but the next time event is in ", got);
                else if (f->next_event < 0.0)
                    VCHECK(got == adevs_inf<double>(), "wrong-time", "FMU ", s.id, ": a time event in ", got,
                           ", but the FMU asked for none");
                else
                    VCHECK(std::fabs(got - (f->next_event - at[(std::size_t)N])) <= 1e-9, "wrong-time", "FMU ", s.id,
                           ": a time event in ", got, ", but it is due at ", f->next_event, " and it is ",
                           at[(std::size_t)N]);
            } else if (what == 6) {
                s.check_jacobian(at.data());
            } else if (what == 7) {
                c.log("trial", (u64)s.id);
                s.postTrialStep(at.data());
                s.check_fmu(at.data(), "after a trial step");
            } else if (what == 8) {
                // A step is made
                if (at[(std::size_t)N] < nd.q[(std::size_t)N]) at[(std::size_t)N] = nd.q[(std::size_t)N];
                std::vector<double> const to = at;
                c.log("step", (u64)s.id, (u64)(at[(std::size_t)N] * 1e6));
                s.postTrialStep(at.data());
                f->cur_q = at.data();
                s.postStep(at.data());
                f->cur_q = nullptr;
                VCHECK(at == to, "wrong-state", "FMU ", s.id, ": the state is changed by the end of a step");
                nd.q = at;
                s.check_fmu(at.data(), "after a step");
                VCHECK(s.get_time() == at[(std::size_t)N], "wrong-time", "FMU ", s.id, ": get_time() is ", s.get_time(),
                       " after a step to ", at[(std::size_t)N]);
                VCHECK(f->last_step == at[(std::size_t)N], "step-not-completed", "FMU ", s.id, " was not told of the step to ",
                       at[(std::size_t)N]);
            } else {
                // An event where the simulation is
                bool ev[16] = {};
                for (int i = 0; i < M; i++)
                    ev[i] = f->z_of(f->arms[(std::size_t)i], nd.q[(std::size_t)N], nd.q.data()) <= 0.0;
                ev[M] = s.due(nd.q[(std::size_t)N]);
                s.postTrialStep(nd.q.data());
                s.postStep(nd.q.data());
                double const now = nd.q[(std::size_t)N];
                int kind = (int)c.below(3), rounds = c.range(1, 2);
                c.log("event", (u64)s.id, (u64)kind);
                f->cur_q = nd.q.data();
                for (int r = 0; r < rounds; r++) {
                    std::list<adevs::PinValue<V>> xb;
                    int count = f->count;
                    bool had = s.due(now) || f->cmd != f->cmd_done;
                    for (auto &a : f->arms) had = had || f->z_of(a, now, nd.q.data()) <= 0.0;
                    if (kind == 0) {
                        s.adevs::ModelExchange<V>::internal_event(nd.q.data(), ev);
                    } else if (kind == 1) {
                        s.adevs::ModelExchange<V>::external_event(nd.q.data(), 0.0, xb);
                    } else {
                        s.adevs::ModelExchange<V>::confluent_event(nd.q.data(), ev, xb);
                    }
                    f->cur_q = nullptr;
                    VCHECK(!had || f->count > count, "event-missed", "FMU ", s.id, ": was not asked to handle its event at ", now);
                    VCHECK(nd.q[(std::size_t)N] == now, "wrong-time", "FMU ", s.id, ": an event changed the time");
                    s.check_fmu(nd.q.data(), "after an event");
                    VCHECK(f->settled, "call-sequence", "FMU ", s.id, " needs another event iteration");
                    if (r + 1 < rounds) s.set_variable("cmd", s.next_cmd++);
                }
                nd.pool.clear();
                c.count("direct-events");
                c.state(vsim::mix((u64)77, (u64)f->count, (u64)kind, (u64)M));
                continue;
            }
            if (what != 8) VCHECK(at == given, "wrong-state", "FMU ", s.id, ": the state it is asked about is changed");
        }
        for (auto &nd : nodes) c.sim_time += nd.q.back();
        vsim::AllocLoud loud;
        nodes.clear();
    }
    VCHECK(w.contexts == 0 && w.fmus == 0 && w.dlls == 0 && w.instances == 0 && w.lists == 0 && w.dirs.empty(), "not-released",
           "at the end: ", w.contexts, " contexts, ", w.fmus, " FMUs, ", w.instances, " instances, ", w.dlls, " libraries, ",
           w.dirs.size(), " temporary directories are left");
}

void fmi_run(Ctx &c) {
    if (c.chance(1, 12)) return fmi_direct(c);
    kinsol_fail_in(0);
    kinsol_calls = kinsol_failed = 0;
    vsim::alloc_fill_seed(c.below(256));
    vsim::alloc_epoch_begin();
    vsim::Pool::reset(c.below(1 << 16), 16);
    c.budget = 1500000;
    FW w(c);
    fw = &w;
    int n = c.range(1, 2);
    bool wild = c.chance(1, 2);
    Disarm disarm;
    int fail_cycle = c.chance(1, 20) ? c.range(-1, 12) : -2;  // when the FMU reports an error: -1 for at the start
    int fail_fmu = (int)c.below((u32)n);
    auto arm_failure = [&](fmi2_import_t* f) {
        static fmi2_status_t const st[] = {fmi2_status_error, fmi2_status_fatal, fmi2_status_discard};
        f->fail_status = st[c.below(3)];
        f->fail_in = c.chance(1, 2) ? c.range(1, 12) : c.range(1, 80);
    };
    w.specs.resize((std::size_t)n + 1);
    if (c.chance(1, 8)) {
        // One that cannot be loaded
        Spec &s = w.specs[(std::size_t)n];
        draw_spec(c, s, 1);
        switch (c.below(4)) {
            case 0: s.version = fmi_version_unknown_enu; break;
            case 1: s.version = fmi_version_1_enu; break;
            case 2: s.parses = false; break;
            default: s.kind = fmi2_fmu_kind_cs; break;
        }
        c.fault("fmu-cannot-be-loaded");
        bool thrown = false;
        std::string file = cat("fmu-", n);
        try {
            vsim::AllocLoud loud;
            auto* x = new adevs::ModelExchange<V>(file.c_str(), 1e-4);
            delete x;
        } catch (adevs::exception const &) {
            thrown = true;
        }
        VCHECK(thrown, "load-accepted", "an FMU that cannot be used was loaded");
        VCHECK(w.contexts == 0 && w.fmus == 0 && w.dlls == 0 && w.instances == 0 && w.lists == 0 && w.dirs.empty(),
               "not-released", "after failing to load an FMU: ", w.contexts, " contexts, ", w.fmus, " FMUs, ", w.dirs.size(),
               " temporary directories are left");
    }
    {
        std::vector<std::shared_ptr<adevs::Hybrid<V>>> hy;
        auto col = std::shared_ptr<FCollector>(new Placed<FCollector>(w));
        auto watch = std::make_shared<FWatch>(w);
        for (int i = 0; i < n; i++) {
            int loc = c.range(0, 5);
            int M = loc == L_NULL ? 0 : c.range(0, c.chance(1, 15) ? 12 : 3);
            Spec &sp = w.specs[(std::size_t)i];
            draw_spec(c, sp, M);
            for (auto &a : sp.arms) a.jump = (loc == L_DISC || loc == L_FAST || loc == L_SPLINE) && c.chance(1, 3);
            if (c.chance(1, 3)) sp.kind = fmi2_fmu_kind_me_and_cs;
            sp.tol = std::pow(10.0, -c.range(3, 8));
            std::string file = cat("fmu-", i);
            Wrap* s;
            {
                vsim::AllocLoud loud;
                s = new Wrap(w, i, file.c_str(), sp.tol);
            }
            VCHECK(w.loaded.count(i) == 1, "wrong-file", "FMU ", i, " was not loaded");
            s->f = w.loaded[i];
            s->solver = c.range(0, 2);
            s->loc = loc;
            s->tol_l = std::pow(10.0, -c.range(2, 6));
            w.ws.push_back(s);
            double L = 1e-3;
            for (auto &b : sp.blocks) L = std::max(L, b.rate(sp.x0.data()));
            s->h_max = std::min((c.chance(1, 2) ? 0.5 : 0.1) / L, c.chance(1, 3) ? 4.0 : 1.0);
            if (s->solver == TRAP) s->h_max = std::min(s->h_max, 0.05 / L);
            if (loc == L_SPLINE) s->h_max = std::min(s->h_max, 0.2 / L);
            s->stol = s->solver == RK ? 1e-9 : 1e-5;
            VNOTE("FMU ", i, ": ", solver_name(s->solver), " tolerance ", s->stol, " h_max ", s->h_max, ", ", l_name[loc],
                  " locator, tolerance ", s->tol_l, ", ", M, " state events, ", sp.x0.size(), " variables");
            VCHECK(s->numVars() == (int)sp.x0.size() + 1 && s->numEvents() == M, "wrong-size", "FMU ", i, ": ", s->numVars(),
                   " variables and ", s->numEvents(), " events");
            adevs::ode_solver<V>* sol;
            adevs::event_locator<V>* l;
            std::shared_ptr<adevs::Hybrid<V>> h;
            {
                vsim::AllocLoud loud2;
                sol = make_solver(s->solver, s, s->stol, s->h_max);
                switch (loc) {
                    case L_BISECT: l = new adevs::bisection_event_locator<V>(s, s->tol_l); break;
                    case L_LINEAR: l = new adevs::linear_event_locator<V>(s, s->tol_l); break;
                    case L_DISC: l = new adevs::discontinuous_event_locator<V>(s, s->tol_l); break;
                    case L_FAST: l = new adevs::fast_event_locator<V>(s, s->tol_l); break;
                    case L_SPLINE: l = new adevs::fast_event_locator<V>(s, s->tol_l, true); break;
                    default: l = new adevs::null_event_locator<V>(); break;
                }
                if (fail_cycle == -1 && fail_fmu == i) arm_failure(s->f);
                static thread_local Placed<adevs::Hybrid<V>>* made;
                made = nullptr;
                if (s->f->fail_in > 0) {
                    if (!guarded([&] { made = new Placed<adevs::Hybrid<V>>(s, sol, l); })) {
                        // What is there now is abandoned
                        VCHECK(s->f->failed != nullptr, "assert", "FMU ", i, ": an assertion failed at the start");
                        new auto(hy);
                        new auto(col);
                        vsim::Pool::forget();
                        c.feature("error-stops-start");
                        return;
                    }
                } else {
                    made = new Placed<adevs::Hybrid<V>>(s, sol, l);
                }
                VCHECK(s->f->failed == nullptr, "error-ignored", "FMU ", i, ": error of ", s->f->failed,
                       " ignored at the start");
                s->f->fail_in = 0;
                h = std::shared_ptr<adevs::Hybrid<V>>(made);
            }
            for (int k = 0; k < (int)sp.x0.size(); k++)
                VCHECK(h->getState(k) == sp.x0[(std::size_t)k], "wrong-state", "FMU ", i, ": variable ", k, " starts as ",
                       h->getState(k), " and not as ", sp.x0[(std::size_t)k]);
            VCHECK(h->getState((int)sp.x0.size()) == 0.0 && s->get_time() == 0.0, "wrong-time", "FMU ", i,
                   " does not start at time zero");
            s->check_fmu(h->getState(), "at the start");
            watch->who[h.get()] = i;
            watch->hy.push_back(h.get());
            hy.push_back(h);
        }
        auto g = std::make_shared<adevs::Graph<V>>();
        g->add_atomic(col);
        for (int i = 0; i < n; i++) {
            g->add_atomic(hy[(std::size_t)i]);
            g->connect(w.ws[(std::size_t)i]->out, col);
            g->connect(w.ws[(std::size_t)i]->in, hy[(std::size_t)i]);
            for (int j = 0; j < n; j++)
                if (j != i && c.chance(1, 3)) g->connect(w.ws[(std::size_t)i]->out, w.ws[(std::size_t)j]->in);
        }
        std::unique_ptr<adevs::Simulator<V>> sim(new adevs::Simulator<V>(g));
        sim->addEventListener(watch);
        int cycles = c.range(4, c.thorough ? 160 : 60);
        V injected = -1;
        double last = 0.0;
        for (int k = 0; k < cycles; k++) {
            double next = sim->nextEventTime();
            VCHECK(next >= last, "time-backwards", "next event at ", next, " after ", last);
            double t = next;
            if (c.chance(wild ? 1 : 0, 3)) {
                double gap = next - last;
                switch (c.below(6)) {
                    case 0: t = next; c.fault("input-at-event-time"); break;
                    case 1: t = last; c.fault("input-repeated-at-same-time"); break;
                    case 2: {
                        double back = w.ws[c.below((u32)n)]->tol_l * (double)c.range(1, 12) / 8.0;
                        t = std::max(last, next - back);
                        c.fault("input-just-before-event");
                        break;
                    }
                    case 3: t = std::max(last, std::nextafter(next, 0.0)); c.fault("input-just-before-event"); break;
                    default: t = last + gap * (double)c.range(0, 15) / 16.0; c.fault("input-between-steps"); break;
                }
                int m = c.range(1, 2);
                for (int j = 0; j < m; j++) {
                    adevs::PinValue<V> x(w.ws[c.below((u32)n)]->in, injected--);
                    sim->injectInput(x);
                }
                if (t < next) sim->setNextTime(t);
                VNOTE("input at ", t);
            }
            if (c.chance(1, 12)) kinsol_fail_in(c.range(1, 3));
            w.now = t;
            double r = t;
            if (k == fail_cycle) {
                auto* f = w.ws[(std::size_t)fail_fmu]->f;
                arm_failure(f);
                bool raised = false;
                bool whole = guarded([&] {
                    try {
                        sim->execNextEvent();
                        sim->nextEventTime();
                    } catch (adevs::exception const &) {
                        raised = true;
                    }
                });
                VCHECK(whole || f->failed != nullptr, "assert", "an assertion failed at ", t);
                VCHECK(f->failed == nullptr || !whole || raised, "error-ignored", "FMU ", fail_fmu, ": error of ", f->failed,
                       " at ", t, " ignored");
                f->fail_in = 0;
                if (!whole || raised) {
                    // What is there now is abandoned
                    sim.release();
                    new auto(g);
                    new auto(hy);
                    vsim::Pool::forget();
                    c.feature("error-stops-simulation");
                    return;
                }
            } else {
                r = sim->execNextEvent();
            }
            kinsol_fail_in(0);
            VCHECK(r == t, "cycle-time", "the cycle at ", t, " returned ", r);
            double after = sim->nextEventTime();
            for (auto &o : w.outs) {
                VCHECK(o.second.caused, "output-without-event", "FMU ", o.second.from, " produced output ", o.first, " at ",
                       o.second.at, " without an event");
                if (after > o.second.at)
                    VCHECK(o.second.seen == 1, "output-lost", "output ", o.first, " of FMU ", o.second.from, " at ",
                           o.second.at, " never arrived");
            }
            while (!w.outs.empty() && w.outs.begin()->second.seen == 1) w.outs.erase(w.outs.begin());
            // An event that the FMU asked for after a step happens at that time
            for (auto* s : w.ws)
                VCHECK(!s->f->step_pending || after <= w.now, "event-missed", "FMU ", s->id, " asked for an event at ",
                       s->f->step_at, " but nothing is to happen before ", after);
            last = t;
        }
        c.sim_time += last;
        for (auto* s : w.ws) c.count("fmu-events", (u64)s->f->count);
        vsim::AllocLoud loud;
        sim.reset();
        g.reset();
        hy.clear();
    }
    VCHECK(w.contexts == 0 && w.fmus == 0 && w.dlls == 0 && w.instances == 0 && w.lists == 0 && w.dirs.empty(), "not-released",
           "at the end: ", w.contexts, " contexts, ", w.fmus, " FMUs, ", w.instances, " instances, ", w.dlls, " libraries, ",
           w.dirs.size(), " temporary directories are left");
    auto st = vsim::alloc_epoch_stats();
    VCHECK(st.live == 0 && st.c_live == 0, "memory-leak", st.live, " allocations (", st.live_bytes, " bytes) and ", st.c_live, " blocks of C libraries were never released");
}
}  // namespace num

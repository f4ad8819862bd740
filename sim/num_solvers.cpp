// C14: ODE solvers against closed form solutions. C15: event locators.
#include <dlfcn.h>
#include "num.hpp"

// ---- Fault injection into the nonlinear solver of the implicit method --------
namespace num {
thread_local u64 kinsol_calls = 0, kinsol_failed = 0;
static thread_local int fail_in = 0, failed_again = 0;
static thread_local bool stubborn = false;
static thread_local std::vector<double> failed_at;
void kinsol_fail_in(int n, bool again) {
    vsim::AllocQuiet quiet;
    fail_in = n;
    stubborn = again;
    failed_again = 0;
    failed_at.clear();
}
}  // namespace num
extern "C" int KINSol(void* mem, N_Vector u, int strategy, N_Vector us, N_Vector fs) {
    using F = int (*)(void*, N_Vector, int, N_Vector, N_Vector);
    static F real = (F)dlsym(RTLD_NEXT, "KINSol");
    num::kinsol_calls++;
    double const* at = N_VGetArrayPointer(u);
    std::size_t const n = (std::size_t)N_VGetLength(u);
    // What could not be solved once cannot be solved the next time either
    bool again = !num::failed_at.empty() && num::failed_at.size() == n && std::equal(at, at + n, num::failed_at.begin());
    VCHECK(!again || ++num::failed_again < 100, "no-progress", "trap tries the same step again and again, which cannot be solved");
    if (again || (num::fail_in > 0 && --num::fail_in == 0)) {
        vsim::AllocQuiet quiet;
        if (num::stubborn) num::failed_at.assign(at, at + n);
        num::kinsol_failed++;
        vsim::ctx->fault("nonlinear-solver-failed");
        // Like a real failure: the iterate is spoilt
        if (vsim::ctx->below(2)) N_VConst(1e3, u);
        static int const codes[] = {KIN_LINESEARCH_NONCONV, KIN_MAXITER_REACHED, KIN_LINSOLV_NO_RECOVERY,
                                    KIN_LSETUP_FAIL, KIN_FIRST_SYSFUNC_ERR};
        return codes[vsim::ctx->below(5)];
    }
    return real(mem, u, strategy, us, fs);
}

// ---- Fault injection into the setup of the nonlinear solver -----------------------
// Calls of the code under test fail as they do when memory is short; calls that
// SUNDIALS makes itself are left alone.
namespace num {
static thread_local int setup_fail_in = 0, setup_depth = 0;
static thread_local bool setup_failed = false;
static bool setup_fails() {
    if (setup_depth > 1 || setup_fail_in <= 0 || --setup_fail_in > 0) return false;
    vsim::AllocQuiet quiet;
    setup_failed = true;
    vsim::ctx->fault("solver-setup-failed");
    return true;
}
struct Deeper {
    Deeper() { setup_depth++; }
    ~Deeper() { setup_depth--; }
};
template <class F>
static F next(char const* name) {
    vsim::AllocQuiet quiet;
    return (F)dlsym(RTLD_NEXT, name);
}
}  // namespace num
#define SETUP_CALL(R, NAME, PARAMS, ARGS, FAILURE)                       \
    extern "C" R NAME PARAMS {                                          \
        static auto real = num::next<R(*) PARAMS>(#NAME);               \
        num::Deeper deeper;                                             \
        if (num::setup_fails()) return FAILURE;                         \
        return real ARGS;                                               \
    }
#if SUNDIALS_VERSION_MAJOR < 7
SETUP_CALL(int, SUNContext_Create, (void* comm, SUNContext* x), (comm, x), -1)
#endif
SETUP_CALL(N_Vector, N_VNew_Serial, (sunindextype n, SUNContext x), (n, x), nullptr)
SETUP_CALL(N_Vector, N_VClone, (N_Vector v), (v), nullptr)
SETUP_CALL(SUNMatrix, SUNDenseMatrix, (sunindextype m, sunindextype n, SUNContext x), (m, n, x), nullptr)
SETUP_CALL(SUNLinearSolver, SUNLinSol_Dense, (N_Vector y, SUNMatrix A, SUNContext x), (y, A, x), nullptr)
SETUP_CALL(void*, KINCreate, (SUNContext x), (x), nullptr)
SETUP_CALL(int, KINInit, (void* m, KINSysFn f, N_Vector y), (m, f, y), KIN_MEM_FAIL)
SETUP_CALL(int, KINSetUserData, (void* m, void* d), (m, d), KIN_MEM_NULL)
SETUP_CALL(int, KINSetLinearSolver, (void* m, SUNLinearSolver l, SUNMatrix A), (m, l, A), KINLS_MEM_FAIL)
SETUP_CALL(int, KINSetJacFn, (void* m, KINLsJacFn f), (m, f), KINLS_LMEM_NULL)

namespace num {

char const* solver_name(int k) { return k == RK ? "rk_45" : (k == CE ? "corrected_euler" : "trap"); }

adevs::ode_solver<V>* make_solver(int kind, adevs::ode_system<V>* s, double tol, double h_max) {
    if (kind == RK) return new adevs::rk_45<V>(s, tol, h_max);
    if (kind == CE) return new adevs::corrected_euler<V>(s, tol, h_max);
    return new adevs::trap<V>(s, tol, h_max, true);
}

double draw_state(Ctx &c, Block const &b, int k) {
    double x = 0.25 * (double)c.range(1, 8);
    if (b.kind == Block::QUAD) return x;
    if (b.kind == Block::CHAIN && k > 0) return x - 1.0;
    return c.chance(1, 3) ? -x : x;
}

void draw_blocks(Ctx &c, int max_blocks, bool always_clock, std::vector<Block> &b, std::vector<double> &q0) {
    int n = c.range(1, c.chance(1, 20) ? 5 * max_blocks : max_blocks);
    int at = 0;
    for (int i = 0; i < n; i++) {
        Block x;
        x.kind = (Block::Kind)c.range(0, 5);
        if (i == 0 && always_clock) x.kind = Block::CLOCK;
        x.at = at;
        x.n = x.kind == Block::OSC ? 2 : (x.kind == Block::CHAIN ? 3 : 1);
        static double const rates[] = {1.0, 0.5, 2.0, 0.1, 5.0};
        x.a = rates[c.below(5)];
        if (x.kind == Block::RAMP && c.chance(1, 2)) x.a = -x.a;
        if (x.kind == Block::OSC) x.b = c.chance(1, 2) ? 0.0 : 0.25 * (double)c.range(1, 4);
        at += x.n;
        for (int k = 0; k < x.n; k++) q0.push_back(draw_state(c, x, k));
        b.push_back(x);
    }
}

static double max_abs(double const* q, int n) {
    double m = 0.0;
    for (int i = 0; i < n; i++) m = std::max(m, std::fabs(q[i]));
    return m;
}

struct SolverUnderTest {
    std::unique_ptr<Sys> sys;
    std::unique_ptr<adevs::ode_solver<V>> s;
    int kind = RK;
    double tol = 1e-6, h_max = 0.1;
    std::vector<double> q, before;  // state, and at the start of the last step
    double measured = -1.0;  // error estimate that the last step made available to the step control
};

// The order of a method: two steps of half the length against one step
static void order_run(Ctx &c) {
    c.budget = 100000;
    int kind = c.chance(1, 2) ? RK : CE, order = kind == RK ? 5 : 2;
    Block b;
    b.kind = c.pick(std::vector<Block::Kind>{Block::DECAY, Block::OSC, Block::QUAD});
    b.n = b.kind == Block::OSC ? 2 : 1;
    b.a = 0.25 * (double)c.range(1, 16);
    b.b = b.kind == Block::OSC ? 0.25 * (double)c.range(0, 4) : 0.0;
    std::vector<double> q0;
    for (int i = 0; i < b.n; i++) q0.push_back(draw_state(c, b, i));
    Sys sys({b}, q0, 0);
    // With no other limit than the longest step
    double h = (kind == RK ? 0.1 : 0.02) * (double)c.range(2, 8) / 4.0 / sys.rate(q0.data());
    std::vector<double> one(q0), two(q0), want(q0);
    std::unique_ptr<adevs::ode_solver<V>> s1(make_solver(kind, &sys, 1e6, h)), s2(make_solver(kind, &sys, 1e6, h / 2.0));
    double got = s1->integrate(one.data(), h);
    u64 d0 = sys.ders;
    double got2 = s2->integrate(two.data(), h);
    u64 d1 = sys.ders;
    if (got != h || got2 != h / 2.0) return;  // it has other reasons for shorter steps
    s2->advance(two.data(), h - got2);
    if (sys.ders - d1 != d1 - d0) return;
    sys.exact(q0.data(), h, want.data());
    double e1 = 0.0, e2 = 0.0, mag = 1.0 + max_abs(q0.data(), b.n);
    for (int i = 0; i < b.n; i++) {
        std::size_t z = (std::size_t)i;
        e1 += (one[z] - want[z]) * (one[z] - want[z]);
        e2 += (two[z] - want[z]) * (two[z] - want[z]);
    }
    e1 = std::sqrt(e1);
    e2 = std::sqrt(e2);
    VNOTE(solver_name(kind), " kind ", (int)b.kind, " a ", b.a, " b ", b.b, " step ", h, ": error ", e1, ", with half the step ", e2);
    c.log("order", (u64)kind, (u64)b.kind, (u64)(h * 1e9));
    c.feature("order-of-convergence");
    c.nontrivial = true;
    if (e2 < 2e-14 * mag) return;
    VCHECK(e2 <= e1 / std::pow(2.0, order - 0.3), "solver-order", solver_name(kind), ": with a step of ", h, " the error is ", e1,
           ", with two steps of half of it ", e2, ", which is not the accuracy of a method of order ", order);
}

void solver_run(Ctx &c) {
    kinsol_fail_in(0);
    if (c.chance(1, 12)) return order_run(c);
    kinsol_calls = kinsol_failed = 0;
    vsim::alloc_fill_seed(c.below(256));
    c.budget = 40000000;
    vsim::alloc_epoch_begin();
    int n = c.range(1, 2);
    bool share = n == 2 && c.chance(1, 3);  // both solvers act on one system
    {
        std::vector<SolverUnderTest> us((std::size_t)n);
        std::vector<Block> b;
        std::vector<double> q0;
        for (int i = 0; i < n; i++) {
            auto &u = us[(std::size_t)i];
            if (i == 0 || !share) {
                b.clear();
                q0.clear();
                draw_blocks(c, 4, c.chance(1, 2), b, q0);
            }
            u.sys.reset(new Sys(b, q0, 0));
            u.sys->has_jac = c.chance(1, 2);
            u.kind = c.range(0, 2);
            double L = u.sys->rate(q0.data());
            static double const frac[] = {0.5, 0.25, 0.1, 0.02};
            double f = frac[c.below(4)];
            if (u.kind == TRAP) f = std::min(f, 0.1);
            u.h_max = std::min(f / L, 4.0);
            u.tol = std::pow(10.0, -c.range(2, u.kind == RK ? 10 : 6));
            adevs::ode_system<V>* target = share ? us[0].sys.get() : u.sys.get();
            setup_failed = false;
            setup_fail_in = u.kind == TRAP && c.chance(1, 8) ? c.range(1, 12) : 0;
            for (int tries = 0; u.s == nullptr; tries++) {
                vsim::AllocLoud loud;
                try {
                    u.s.reset(make_solver(u.kind, target, u.tol, u.h_max));
                    VCHECK(!setup_failed || tries > 0, "setup-failure-ignored", "trap was created although its setup failed");
                } catch (adevs::exception &) {
                    VCHECK(setup_failed && tries == 0, "unexpected-exception", "trap could not be created");
                    VNOTE("solver ", i, ": its setup failed");
                    setup_fail_in = 0;
                }
            }
            u.q = q0;
            VNOTE("solver ", i, ": ", solver_name(u.kind), " tolerance ", u.tol, " h_max ", u.h_max, " variables ",
                  q0.size(), share ? " shared system" : "");
        }
        int ops = c.range(1, c.thorough ? 60 : 25);
        double growth_time = 0.0;
        for (int k = 0; k < ops; k++) {
            auto &u = us[c.below((u32)n)];
            Sys &sys = share ? *us[0].sys : *u.sys;
            int N = sys.numVars();
            std::vector<double> start(u.q), want((std::size_t)N);
            std::vector<double> &before = u.before;
            // Canaries around the state: only the state passed in may change
            std::vector<double> buf((std::size_t)N + 4, 777.25);
            for (int i = 0; i < N; i++) buf[(std::size_t)i + 2] = start[(std::size_t)i];
            double* q = buf.data() + 2;
            u64 d0 = sys.ders, kf0 = kinsol_failed, k0 = kinsol_calls;
            int op = (int)c.below(8);
            double h = 0.0, got = 0.0;
            bool partial = false;
            if (op == 7) {
                // The state jumps, as at a discrete event
                int what = (int)c.below(4);
                Block &one = sys.blocks[c.below((u32)sys.blocks.size())];
                if (what == 0) {
                    for (auto &bl : sys.blocks)
                        for (int i = 0; i < bl.n; i++) u.q[(std::size_t)(bl.at + i)] = draw_state(c, bl, i);
                    c.fault("state-discontinuity");
                } else if (what == 1) {  // only a variable of it
                    int i = (int)c.below((u32)one.n);
                    u.q[(std::size_t)(one.at + i)] = draw_state(c, one, i);
                    c.fault("one-variable-jumps");
                } else if (what == 2 && !u.before.empty()) {  // back to the start of the last step
                    u.q = u.before;
                    c.fault("step-taken-back");
                } else if (one.kind == Block::RAMP) {  // another derivative at the same state
                    one.a = -one.a;
                    c.fault("parameter-changes");
                } else if (one.kind == Block::OSC && !share) {
                    one.b = one.b > 0.0 ? 0.0 : std::min(0.5, 0.5 / u.h_max);
                    c.fault("parameter-changes");
                }
                VNOTE("solver ", (int)(&u - us.data()), ": discontinuity ", what);
                u.measured = -1.0;
                continue;
            }
            if (u.kind == TRAP && c.chance(1, 6)) kinsol_fail_in(c.range(1, 4));
            if (op <= 4) {
                partial = true;
                switch (c.below(6)) {
                    case 0: h = adevs_inf<double>(); break;
                    case 1: h = u.h_max * 2.0; break;
                    case 2: h = u.h_max; break;
                    case 3: h = u.h_max * (double)c.range(1, 99) / 100.0; break;
                    case 4: h = u.h_max * 1e-9; c.fault("tiny-step"); break;
                    case 5: h = 0.0; break;
                }
                // The same step fails again if it is tried again. A clock tells one step from another.
                bool clock = false;
                for (auto &bl : sys.blocks) clock = clock || bl.kind == Block::CLOCK;
                if (u.kind == TRAP && clock && h > 0.005 * u.h_max && c.chance(1, 6)) kinsol_fail_in(1, true);
                {
                    vsim::AllocLoud loud;
                    got = u.s->integrate(q, h);
                }
                VCHECK(got <= h && got <= u.h_max * (1.0 + 1e-12), "overstep", solver_name(u.kind), " took a step of ",
                       got, " with a limit of ", h, " and a maximum of ", u.h_max);
                VCHECK(h == 0.0 ? got == 0.0 : got > 0.0, "no-step", solver_name(u.kind), " took a step of ", got,
                       " with a limit of ", h);
            } else {
                switch (c.below(5)) {
                    case 0: h = u.h_max * (double)c.range(1, 99) / 100.0; break;
                    case 4:  // a little is left after some of the longest steps
                        h = u.h_max * (double)c.range(1, 4) * (1.0 + std::pow(2.0, -c.range(7, 40)));
                        c.fault("short-last-step");
                        break;
                    case 1: h = u.h_max * (double)c.range(1, 400) / 100.0; break;
                    case 2: h = u.h_max * 1e-9; c.fault("tiny-step"); break;
                    case 3: h = 0.0; break;
                }
                {
                    vsim::AllocLoud loud;
                    u.s->advance(q, h);
                }
                got = h;
            }
            kinsol_fail_in(0);
            u64 calls = sys.ders - d0;
            VCHECK(buf[0] == 777.25 && buf[1] == 777.25 && buf[(std::size_t)N + 2] == 777.25 &&
                       buf[(std::size_t)N + 3] == 777.25, "stray-write", "memory next to the state was changed");
            sys.exact(start.data(), got, want.data());
            double mag = 1.0 + max_abs(start.data(), N) + max_abs(want.data(), N);
            double L = std::max(sys.rate(start.data()), sys.rate(want.data()));
            // Error allowed: a multiple of the tolerance for every step, and rounding
            double steps = partial ? 1.0 : (double)calls + 1.0;
            double allow;
            if (u.kind == RK) {
                steps = partial ? 1.0 : (double)calls / 6.0 + 1.0;
                allow = 1.5 * u.tol * steps;
            } else if (u.kind == CE) {
                steps = partial ? 1.0 : (double)calls / 2.0 + 1.0;
                allow = u.tol * steps;
            } else {
                double hh = std::min(got, u.h_max);
                double n_steps = partial ? 1.0 : (double)calls / 2.0 + 1.0;
                allow = n_steps * 4e-5;
                double per = 0.3 * std::pow(hh * L, 3.0) * mag;
                allow += partial ? per : per * std::min(n_steps, (double)(kinsol_calls - k0) + 2.0);
            }
            allow += 1e-13 * mag * (steps + 4.0);
            double worst = 0.0;
            int at = -1;
            for (int i = 0; i < N; i++) {
                double e = std::fabs(q[i] - want[(std::size_t)i]);
                if (!(e <= worst)) {
                    worst = e;
                    at = i;
                }
            }
            VNOTE(solver_name(u.kind), partial ? " integrate(" : " advance(", h, ") -> ", got, ", ", calls,
                  " evaluations, error ", worst, " allowed ", allow);
            c.log(partial ? "integrate" : "advance", (u64)u.kind, (u64)(got * 1e9), (u64)(worst * 1e12), calls);
            VCHECK(worst <= allow, "solver-error", solver_name(u.kind), partial ? " integrate" : " advance", " over ",
                   got, " with tolerance ", u.tol, " and maximum step ", u.h_max, ": variable ", at, " is ", q[at < 0 ? 0 : at],
                   " but the solution is ", want[(std::size_t)(at < 0 ? 0 : at)], " (error ", worst, ", allowed ", allow, ")");
            static bool const probe = getenv("VPROBE") != nullptr;
            if (probe && worst > 1e-12 * mag) {
                char nm[40];
                snprintf(nm, sizeof nm, "ratio-%s-%s-%02d", solver_name(u.kind), partial ? "i" : "a",
                         (int)(worst / allow * 20));
                c.count(nm);
            }
            // Time passes by exactly the step
            for (auto &bl : sys.blocks)
                if (bl.kind == Block::CLOCK || bl.kind == Block::CHAIN)
                    VCHECK(std::fabs(q[bl.at] - (start[(std::size_t)bl.at] + got)) <= 1e-12 * (mag + steps * 1e-3) + (u.kind == TRAP ? 1e-6 * steps : 0.0),
                           "duration", solver_name(u.kind), ": the clock advanced by ", q[bl.at] - start[(std::size_t)bl.at],
                           " instead of ", got);
            if (u.kind == TRAP && partial && got > 0.0) {
                // The trapezoidal rule relates the two ends of the step
                std::vector<double> f0((std::size_t)N), f1((std::size_t)N);
                for (auto &bl : sys.blocks) {
                    bl.der(start.data(), f0.data());
                    bl.der(q, f1.data());
                }
                double euler = 0.0;
                for (int i = 0; i < N; i++) {
                    std::size_t z = (std::size_t)i;
                    double r = q[i] - start[z] - got / 2.0 * (f0[z] + f1[z]);
                    VCHECK(std::fabs(r) <= 2e-5 * mag, "implicit-equation", "trap: a step of ", got,
                           " leaves a residual of ", r, " in variable ", i);
                    euler = std::max(euler, std::fabs(start[z] + got * f0[z] - q[i]));
                }
                // The step that follows one with a clearly visible error respects the tolerance
                if (u.measured > 1e-4 * mag && kinsol_failed == kf0)
                    VCHECK(euler <= 4.0 * u.tol + 4e-5 * mag, "step-control", "trap: step ", got,
                           " has an Euler error of ", euler, " with tolerance ", u.tol);
                u.measured = euler;
            } else if (got != 0.0) {
                u.measured = -1.0;
            }
            for (int i = 0; i < N; i++) u.q[(std::size_t)i] = q[i];
            before = start;
            growth_time += got;
            c.sim_time += got;
            c.nontrivial = true;
            c.count("derivative-evaluations", calls);
            c.state(vsim::mix((u64)u.kind, (u64)op, (u64)(-std::log10(u.tol)), vsim::mix((u64)N, calls)));
            if (max_abs(u.q.data(), N) > 50.0) {  // chains grow: start again
                for (auto &bl : sys.blocks)
                    for (int i = 0; i < bl.n; i++) u.q[(std::size_t)(bl.at + i)] = draw_state(c, bl, i);
                u.measured = -1.0;
            }
        }
        for (auto &u : us) {
            vsim::AllocLoud loud;
            u.s.reset();
        }
        auto st = vsim::alloc_epoch_stats();
        VCHECK(st.live == 0, "memory-leak", st.live, " allocations (", st.live_bytes,
               " bytes) of the solvers were never released");
        VCHECK(st.c_live == 0, "memory-leak", st.c_live, " blocks that the solvers had from SUNDIALS were never released");
    }
}

// ---- C15 ----------------------------------------------------------------------
struct LocSys : Sys {
    struct Z {
        int var;
        double thr, scale;
        bool jump;
    };
    std::vector<Z> zs;
    LocSys(std::vector<Block> const &b, std::vector<double> const &q0, std::vector<Z> const &z)
        : Sys(b, q0, (int)z.size()), zs(z) {}
    double z_of(Z const &z, double const* q) const {
        double d = q[z.var] - z.thr;
        if (z.jump) return z.scale * (d >= 0.0 ? 1.0 : -1.0);
        return z.scale * d;
    }
    void state_event_func(double const* q, double* out) override {
        vsim::ctx->spend();
        for (std::size_t i = 0; i < zs.size(); i++) out[i] = z_of(zs[i], q);
    }
};

enum LocKind { BISECT = 0, LINEAR = 1, DISC = 2, FAST = 3, SPLINE = 4, NONE = 5 };
static char const* const loc_name[] = {"bisection", "linear", "discontinuous", "fast", "fast+spline", "null"};

static int sgn(double x) { return x < 0.0 ? -1 : (x > 0.0 ? 1 : 0); }

// The interpolation on which the fast locator may rely
static void spline_run(Ctx &c) {
    int N = c.range(1, 5), rounds = c.range(1, 4);
    adevs::spline p(N);
    auto num = [&] { return (double)c.range(-400, 400) / 64.0; };
    for (int r = 0; r < rounds; r++) {
        double h = std::pow(2.0, -c.range(0, 10)) * (double)c.range(1, 7);
        std::vector<double> k[4], q0, dq0, qh, dqh, q((std::size_t)N);
        for (auto &x : k)
            for (int i = 0; i < N; i++) x.push_back(num());
        auto at = [&](int i, double t) {
            auto n = (std::size_t)i;
            return k[0][n] + t * (k[1][n] + t * (k[2][n] + t * k[3][n]));
        };
        auto slope = [&](int i, double t) {
            auto n = (std::size_t)i;
            return k[1][n] + t * (2.0 * k[2][n] + t * 3.0 * k[3][n]);
        };
        for (int i = 0; i < N; i++) {
            q0.push_back(at(i, 0.0));
            qh.push_back(at(i, h));
            dq0.push_back(slope(i, 0.0));
            dqh.push_back(slope(i, h));
        }
        p.init(q0.data(), dq0.data(), qh.data(), dqh.data(), h);
        for (int j = 0; j < 6; j++) {
            double t = j == 0 ? 0.0 : (j == 1 ? h : h * (double)c.below(1000) / 1000.0);
            p.interpolate(q.data(), t);
            for (int i = 0; i < N; i++) {
                double mag = 100.0 * (1.0 + h) * (1.0 + h) * (1.0 + h);
                VCHECK(std::fabs(q[(std::size_t)i] - at(i, t)) <= 1e-10 * mag, "interpolation",
                       "the spline of a cubic is ", q[(std::size_t)i], " at ", t, " of ", h, " but should be ", at(i, t));
            }
        }
        c.log("spline", (u64)N, (u64)(h * 1e6));
    }
    c.nontrivial = true;
    c.feature("spline");
}

void locator_run(Ctx &c) {
    vsim::alloc_fill_seed(c.below(256));
    if (c.chance(1, 50)) return spline_run(c);
    c.budget = 800000;
    std::vector<Block> b;
    std::vector<double> q0;
    draw_blocks(c, 4, true, b, q0);
    for (auto &x : b)  // keep the state away from zero so that all variables but oscillators are monotone
        if (x.kind == Block::CHAIN)
            for (int i = 0; i < 3; i++) q0[(std::size_t)(x.at + i)] = std::fabs(q0[(std::size_t)(x.at + i)]) + 0.25;
    std::vector<int> mono;
    for (auto &x : b)
        if (x.kind != Block::OSC)
            for (int i = 0; i < x.n; i++) mono.push_back(x.at + i);
    int kind = c.range(0, 5);
    int solver = c.range(0, 2);
    double tol = std::pow(10.0, -c.range(1, 8));
    Sys tmp(b, q0, 0);
    double L = tmp.rate(q0.data());
    double h_max = std::min((c.chance(1, 2) ? 0.5 : 0.1) / L, 2.0);
    if (solver == TRAP) h_max = std::min(h_max, 0.1 / L);
    double stol = solver == RK ? 1e-9 : 1e-5;
    int M = c.range(kind == NONE ? 0 : 1, c.chance(1, 15) ? 20 : 4);
    if (c.chance(1, 12)) M = 0;
    // Thresholds at chosen times of the exact solution
    std::vector<LocSys::Z> zs;
    std::vector<double> when;
    double horizon = h_max * (c.chance(1, 2) ? 1.0 : 3.0);
    for (int i = 0; i < M; i++) {
        LocSys::Z z;
        z.var = mono[c.below((u32)mono.size())];
        double t;
        switch (c.below(4)) {
            case 0: t = horizon * (double)c.range(1, 999) / 1000.0; break;
            case 1: t = !when.empty() ? when[c.below((u32)when.size())] : h_max / 2.0; break;  // simultaneous
            case 2: t = h_max * (double)c.range(1, 8) / 8.0; break;                   // at the end of a step or a bisection point
            default: t = horizon * 10.0; break;                                       // not soon
        }
        std::vector<double> at(q0.size());
        tmp.exact(q0.data(), t, at.data());
        z.thr = at[(std::size_t)z.var];
        static double const scales[] = {1.0, -1.0, 100.0, -0.01};
        z.scale = scales[c.below(4)];
        z.jump = (kind == DISC || kind == FAST || kind == SPLINE) && c.chance(1, 3);
        if (std::fabs(z.thr - q0[(std::size_t)z.var]) < 1e-6) continue;  // starts on the surface
        when.push_back(t);
        zs.push_back(z);
    }
    M = (int)zs.size();
    LocSys sys(b, q0, zs);
    sys.has_jac = c.chance(1, 2);
    std::unique_ptr<adevs::ode_solver<V>> s(make_solver(solver, &sys, stol, h_max));
    std::unique_ptr<adevs::event_locator<V>> loc;
    switch (kind) {
        case BISECT: loc.reset(new adevs::bisection_event_locator<V>(&sys, tol)); break;
        case LINEAR: loc.reset(new adevs::linear_event_locator<V>(&sys, tol)); break;
        case DISC: loc.reset(new adevs::discontinuous_event_locator<V>(&sys, tol)); break;
        case FAST: loc.reset(new adevs::fast_event_locator<V>(&sys, tol)); break;
        case SPLINE: loc.reset(new adevs::fast_event_locator<V>(&sys, tol, true)); break;
        default: loc.reset(new adevs::null_event_locator<V>()); break;
    }
    int N = sys.numVars();
    VNOTE(loc_name[kind], " locator, tolerance ", tol, ", ", solver_name(solver), " h_max ", h_max, ", ", M,
          " event functions");
    for (int i = 0; i < M; i++)
        VNOTE("z", i, " = ", zs[(std::size_t)i].scale, (zs[(std::size_t)i].jump ? " * sign(q" : " * (q"),
              zs[(std::size_t)i].var, " - ", zs[(std::size_t)i].thr, "), crossing at ", when[(std::size_t)i]);
    std::vector<double> start(q0), end((std::size_t)N), full((std::size_t)N), want((std::size_t)N);
    std::unique_ptr<bool[]> flags(new bool[(std::size_t)M + 2]);
    double T = 0.0;
    double per_step = solver == RK ? 3e-9 : (solver == CE ? 3e-5 : 4e-5 + 1e-3 * 0.3);
    std::vector<double> q_last(start);
    double T_last = 0.0, slack_last = 0.0;
    bool found = false;
    int iters = 0;
    double slack = 0.0;
    bool searched_on = false;
    int more = c.chance(1, 2) ? 0 : 6;  // events after the first
    int turns = c.chance(1, 2) ? 0 : 2;
    while (T < horizon * 1.5) {
        // What was asked for changes between two steps, perhaps with the state as it was at the last call
        if (turns > 0 && M > 0 && c.chance(1, 6)) {
            turns--;
            auto &z = zs[c.below((u32)M)];
            z.scale = -z.scale;
            sys.zs = zs;
            if (!found && c.chance(1, 2)) {
                start = q_last;
                T = T_last;
                slack = slack_last;
            }
            c.fault("event-function-changes");
        }
        if (found) {
            // Search on from the event, unless a function is exactly zero there
            bool on = more-- > 0;
            for (auto &z : zs) on = on && sys.z_of(z, start.data()) != 0.0;
            if (!on) break;
            found = false;
            iters = 0;
            searched_on = true;
            c.feature("search-goes-on");
        }
        VCHECK(++iters <= 3000, "no-convergence", loc_name[kind], " locator: no event after ", iters,
               " steps, time ", T);
        for (int i = 0; i < N; i++) end[(std::size_t)i] = start[(std::size_t)i];
        for (int i = 0; i < M + 2; i++) flags[(std::size_t)i] = c.chance(1, 2);
        flags[(std::size_t)M] = true;  // belongs to the caller
        bool last_flag = flags[(std::size_t)M + 1];
        double h = s->integrate(end.data(), c.chance(1, 4) ? h_max * 0.37 : adevs_inf<double>());
        double h_full = h;
        full = end;
        std::vector<double> before(start);
        q_last = start;
        T_last = T;
        slack_last = slack;
        found = loc->find_events(flags.get(), start.data(), end.data(), s.get(), h);
        VCHECK(before == start, "start-changed", loc_name[kind], " locator changed the state at the start");
        VCHECK(flags[(std::size_t)M] && flags[(std::size_t)M + 1] == last_flag, "stray-flag", loc_name[kind],
               " locator wrote behind the flags of the ", M, " event functions");
        VCHECK(h >= 0.0 && h <= h_full, "interval", loc_name[kind], " locator returned step ", h, " of ", h_full);
        VCHECK(h > 0.0 || h_full == 0.0 || found, "no-progress", loc_name[kind], " locator returned a step of zero without an event");
        // The state returned belongs to the time returned
        sys.exact(start.data(), h, want.data());
        double mag = 1.0;
        for (int i = 0; i < N; i++) mag = std::max(mag, std::fabs(want[(std::size_t)i]));
        double spl = kind == SPLINE ? std::pow(h_full * L, 4.0) / 100.0 * mag : 0.0;
        // Bounded like the solver's own error over the advances made
        double n_adv = 8.0 + h_full / h_max * 4.0;
        if (solver == CE) n_adv = 200.0;
        double allow = per_step * n_adv + spl + 1e-12 * mag;
        if (solver == TRAP) allow = per_step * mag + 3e-4 * mag;
        for (int i = 0; i < N; i++)
            VCHECK(std::fabs(end[(std::size_t)i] - want[(std::size_t)i]) <= allow, "state-at-event", loc_name[kind],
                   " locator: after a step of ", h, " (of ", h_full, ") variable ", i, " is ", end[(std::size_t)i], " but should be ",
                   want[(std::size_t)i]);
        slack += allow;
        bool any = false;
        for (int i = 0; i < M && kind != NONE; i++) {
            auto &z = zs[(std::size_t)i];
            double z0 = sys.z_of(z, start.data()), z1 = sys.z_of(z, end.data());
            bool crossed = kind >= FAST ? z0 * z1 <= 0.0 : sgn(z0) != sgn(z1);
            any = any || crossed;
            if (!found) {
                VCHECK(!crossed, "event-missed", loc_name[kind], " locator: no event reported, but z", i, " went from ",
                       z0, " to ", z1, " within the step ", h);
                continue;
            }
            VCHECK(flags[(std::size_t)i] == crossed, "event-flags", loc_name[kind], " locator: z", i, " went from ", z0,
                   " to ", z1, " but its flag is ", flags[(std::size_t)i]);
            if (!crossed) continue;
            if (kind == BISECT || kind == LINEAR)
                VCHECK(std::fabs(z1) <= tol, "event-accuracy", loc_name[kind], " locator: z", i, " is ", z1,
                       " at its event, tolerance ", tol);
            if (kind == DISC)
                VCHECK(h <= tol, "event-accuracy", "discontinuous locator: event reported at the end of a step of ", h,
                       ", tolerance ", tol);
            if (kind >= FAST && !z.jump) {
                // Just before the bracket the function had not crossed
                double hb = h - tol * 1.0001 - 1e-12;
                if (hb > 0.0) {
                    std::vector<double> qb((std::size_t)N);
                    sys.exact(start.data(), hb, qb.data());
                    double zb = sys.z_of(z, qb.data());
                    VCHECK(zb * z0 > 0.0 || std::fabs(zb) <= std::fabs(z.scale) * allow * 2.0, "event-accuracy",
                           loc_name[kind], " locator: z", i, " had crossed already ", tol, " before the event reported (",
                           z0, ", ", zb, ", ", z1, ")");
                }
            }
        }
        if (kind != NONE) VCHECK(!found || any, "false-event", loc_name[kind], " locator reported an event but nothing crossed");
        else VCHECK(!found, "false-event", "null locator reported an event");
        if (!found && kind >= FAST)
            VCHECK(h == h_full && end == full, "left-alone", loc_name[kind],
                   " locator: no event, but the step or the state was changed");
        T += h;
        c.log("find", (u64)kind, found, (u64)(h * 1e9), (u64)M);
        c.count(found ? "events-located" : "steps-without-event");
        if (found) {
            int f = 0;
            for (int i = 0; i < M; i++) f += flags[(std::size_t)i];
            c.nontrivial = true;
            if (f > 1) c.feature("simultaneous-events");
            c.state(vsim::mix((u64)kind, (u64)solver, (u64)iters, (u64)f));
            VNOTE("event after ", iters, " steps at ", T, ", ", f, " functions");
        }
        for (int i = 0; i < N; i++) start[(std::size_t)i] = end[(std::size_t)i];
    }
    c.sim_time += T;
    // Was the first crossing found, and nothing before it?
    if (M > 0 && kind != NONE) {
        double first = 1e300;
        for (double t : when) first = std::min(first, t);
        if (found) {
            // How late a report may be, in time
            (void)first;
        } else {
            VCHECK(searched_on || first >= T - 1e-9 - 100.0 * slack, "event-missed", loc_name[kind], " locator: nothing found until ", T,
                   " but a crossing lies at ", first);
        }
    }
}

}  // namespace num

// Continuous systems with known solutions, used by the numerical checks.
#ifndef NUM_HPP
#define NUM_HPP
#include <any>
#include <cassert>
#include <cfloat>
#include <cmath>
#include <list>
#include <memory>
#include <vector>
#include "adevs/adevs.h"
#include "adevs/solvers/corrected_euler.h"
#include "adevs/solvers/event_locators.h"
#include "adevs/solvers/hybrid.h"
#include "adevs/solvers/rk_45.h"
#include "adevs/solvers/trap.h"
#include "core.hpp"

namespace num {
using vsim::cat;
using vsim::Ctx;
using vsim::u32;
using vsim::u64;
using V = long;

// A part of a continuous system that does not interact with the other parts
struct Block {
    enum Kind { CLOCK, RAMP, DECAY, OSC, CHAIN, QUAD } kind = CLOCK;
    int at = 0;       // index of its first variable
    int n = 1;        // number of variables
    double a = 1.0;   // rate
    double b = 0.0;   // damping of an oscillator
    void der(double const* q, double* dq) const {
        double const* x = q + at;
        double* d = dq + at;
        switch (kind) {
            case CLOCK: d[0] = 1.0; break;
            case RAMP: d[0] = a; break;
            case DECAY: d[0] = -a * x[0]; break;
            case OSC:
                d[0] = -b * x[0] - a * x[1];
                d[1] = a * x[0] - b * x[1];
                break;
            case CHAIN:
                d[0] = 1.0;
                d[1] = a * x[0];
                d[2] = a * x[1];
                break;
            case QUAD: d[0] = -a * x[0] * x[0]; break;
        }
    }
    void jac(double const* q, double* J, int N) const {  // column major
        auto at2 = [&](int r, int c) -> double & { return J[(c + at) * N + r + at]; };
        double const* x = q + at;
        switch (kind) {
            case DECAY: at2(0, 0) = -a; break;
            case OSC:
                at2(0, 0) = -b;
                at2(0, 1) = -a;
                at2(1, 0) = a;
                at2(1, 1) = -b;
                break;
            case CHAIN:
                at2(1, 0) = a;
                at2(2, 1) = a;
                break;
            case QUAD: at2(0, 0) = -2.0 * a * x[0]; break;
            default: break;
        }
    }
    void exact(double const* q0, double h, double* q1) const {
        double const* x = q0 + at;
        double* y = q1 + at;
        switch (kind) {
            case CLOCK: y[0] = x[0] + h; break;
            case RAMP: y[0] = x[0] + a * h; break;
            case DECAY: y[0] = x[0] * std::exp(-a * h); break;
            case OSC: {
                double g = std::exp(-b * h), c = std::cos(a * h), s = std::sin(a * h);
                double u = g * (c * x[0] - s * x[1]), v = g * (s * x[0] + c * x[1]);
                y[0] = u;
                y[1] = v;
                break;
            }
            case CHAIN: {
                double x0 = x[0], x1 = x[1], x2 = x[2];
                y[0] = x0 + h;
                y[1] = x1 + a * (x0 * h + h * h / 2.0);
                y[2] = x2 + a * (x1 * h + a * (x0 * h * h / 2.0 + h * h * h / 6.0));
                break;
            }
            case QUAD: y[0] = x[0] / (1.0 + a * x[0] * h); break;
        }
    }
    // Time constant: bound on how fast the derivative reacts to the state
    double rate(double const* q) const {
        switch (kind) {
            case DECAY: return std::fabs(a);
            case OSC: return std::sqrt(a * a + b * b);
            case CHAIN: return std::max(std::fabs(a), std::pow(std::fabs(a), 2.0 / 3.0));
            case QUAD: return 2.0 * std::fabs(a * q[at]);
            default: return 0.0;
        }
    }
};

class Sys : public adevs::ode_system<V> {
  public:
    std::vector<Block> blocks;
    std::vector<double> q_init;
    bool has_jac = false;
    u64 ders = 0;
    // Faults: the point at which the harness lets a call fail
    Sys(std::vector<Block> const &b, std::vector<double> const &q0, int events)
        : adevs::ode_system<V>((int)q0.size(), events), blocks(b), q_init(q0) {}
    void init(double* q) override {
        for (std::size_t i = 0; i < q_init.size(); i++) q[i] = q_init[i];
    }
    void der_func(double const* q, double* dq) override {
        vsim::ctx->spend();
        ders++;
        for (auto &b : blocks) b.der(q, dq);
    }
    void exact(double const* q0, double h, double* q1) const {
        for (auto &b : blocks) b.exact(q0, h, q1);
    }
    double rate(double const* q) const {
        double r = 1e-3;
        for (auto &b : blocks) r = std::max(r, b.rate(q));
        return r;
    }
    bool get_jacobian(double const* q, double* J) override {
        if (J == nullptr) return has_jac;
        if (!has_jac) return false;
        int N = numVars();
        for (int i = 0; i < N * N; i++) J[i] = 0.0;
        for (auto &b : blocks) b.jac(q, J, N);
        return true;
    }
    void state_event_func(double const*, double*) override {}
    double time_event_func(double const*) override { return adevs_inf<double>(); }
    void internal_event(double*, bool const*) override {}
    void external_event(double*, double, std::list<adevs::PinValue<V>> const &) override {}
    void confluent_event(double*, bool const*, std::list<adevs::PinValue<V>> const &) override {}
    void output_func(double const*, bool const*, std::list<adevs::PinValue<V>> &) override {}
};

// A model at an address that the seed chooses
template <typename T>
struct Placed : T {
    using T::T;
    static void* operator new(std::size_t n) { return vsim::Pool::alloc(n); }
    static void operator delete(void* p) { vsim::Pool::release(p); }
};

// Draw a system of blocks and a state. Magnitudes are around one.
void draw_blocks(Ctx &c, int max_blocks, bool always_clock, std::vector<Block> &b, std::vector<double> &q0);
double draw_state(Ctx &c, Block const &b, int k);

enum SolverKind { RK = 0, CE = 1, TRAP = 2 };
char const* solver_name(int k);
adevs::ode_solver<V>* make_solver(int kind, adevs::ode_system<V>* s, double tol, double h_max);

// Failures of the nonlinear solver behind the implicit method
// The n-th call from now fails, and again if it is repeated; 0 disarms
void kinsol_fail_in(int n, bool again = false);
extern thread_local u64 kinsol_calls, kinsol_failed;

void solver_run(Ctx &);
void locator_run(Ctx &);
void hybrid_run(Ctx &);
void cvode_run(Ctx &);
void fmi_run(Ctx &);
}  // namespace num
#endif

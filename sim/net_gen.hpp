// Generator of network scenarios and the driver that runs the real simulator
// and the reference simulator side by side.
#ifndef VSIM_NET_GEN_HPP
#define VSIM_NET_GEN_HPP
#include "net.hpp"

namespace net {
extern int only_inst;  // the type combination of all networks, unless negative

// What a property's check turns on; the numbers are upper limits or percents
// from which each run draws its own mix.
struct Opt {
    int max_models = 9;
    int max_pins = 7;
    int max_steps = 40;
    bool mealy = false;
    bool dyn = false;          // structure changes by models
    bool env_dyn = false;      // structure changes between cycles
    bool single_writer = false;
    bool coupled = false;      // Coupled hierarchy instead of a Graph
    bool multi_parent = false;
    bool atomic = false;       // now and then Simulator(Atomic)
    bool inject = false;
    bool split = false;        // computeNextOutput and computeNextState apart
    bool retract = false;      // change plans after an output calculation
    bool listeners = false;
    bool late_listeners = false;  // more of them while the simulation runs
    int force_inst = -1;
    bool no_reset = false;     // another simulation shares the model pool
    bool zero_ok = true;
    int fixed_models = 0;      // exact number of models
    bool restart = false;      // the simulator is thrown away and made anew
    bool lazy = false;         // mostly plain event execution
    bool elsewhere = false;    // models may have to do with other simulations
    bool grow = false;         // now and then large, deep, or for long
};

void gen_world(vsim::Ctx &c, Opt const &o, World &w, int &inst);

// Both simulators in lock step.
struct Duo {
    vsim::Ctx &c;
    Opt o;
    World w;
    int inst = 0;
    std::unique_ptr<IReal> real;
    Ref ref;
    RT now;
    int cycle = 0;
    std::vector<std::string>* history = nullptr;  // canonical record, if wanted
    bool check = true;                            // compare with the reference
    std::function<void()> between;                // called between steps

    Duo(vsim::Ctx &c, Opt const &o) : c(c), o(o), ref(&w) {}
    ~Duo() { real.reset(); }
    void generate() { gen_world(c, o, w, inst); }
    void start();
    void compute_output();
    void compute_state();
    void exec();   // execNextEvent
    void inject(int pin, long val);
    void set_next(RT t);
    void restart();
    void late_listener();
    void check_next();
    bool step();   // one randomly chosen step; false when the run is over
    void run();
    void edit_some(char const* what);  // structure changes
    bool early_time(RT &t);
    bool early_time(RT &t, RT before);  // `before` is when the next event is scheduled
    void finish();

  private:
    void check_output(std::vector<Ev> const &obs);
    void check_state(std::vector<Ev> const &obs, RT ret);
    void record(char const* what, std::vector<Ev> obs, RT ret);
    void after_cycle();
    void inject_some();
};

}  // namespace net
#endif

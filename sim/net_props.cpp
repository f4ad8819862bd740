// Checks over networks of scripted models.
#include <cmath>
#include "net_gen.hpp"

namespace net {
#define DECL(i)                      \
    IReal* make_real_##i(World* w);  \
    extern bool const inst_sd_##i;
DECL(0) DECL(1) DECL(2) DECL(3) DECL(4) DECL(5) DECL(6) DECL(7) DECL(8) DECL(9)
IReal* make_real(int inst, World* w) {
    switch (inst) {
        case 0: return make_real_0(w);
        case 1: return make_real_1(w);
        case 2: return make_real_2(w);
        case 3: return make_real_3(w);
        case 4: return make_real_4(w);
        case 5: return make_real_5(w);
        case 6: return make_real_6(w);
        case 7: return make_real_7(w);
        case 8: return make_real_8(w);
        default: return make_real_9(w);
    }
}
bool inst_is_sd(int inst) { return inst >= 6 && inst <= 8; }
void determinism_run(vsim::Ctx &);
void large_run(vsim::Ctx &);
void graph_run(vsim::Ctx &);
void mealy_graph_run(vsim::Ctx &);
void federation_run(vsim::Ctx &);
void time_types_run(vsim::Ctx &);
void error_run(vsim::Ctx &);
void lifetime_run(vsim::Ctx &);
void net_props(std::map<std::string, vsim::RunFn> &p);
}  // namespace net

using namespace net;
using vsim::Ctx;

static void duo_run(Ctx &c, Opt o) {
    o.grow = true;
    Duo d(c, o);
    d.generate();
    d.start();
    d.run();
}

double &net::time_scale() {
    static thread_local double x = 1.0;
    return x;
}

void net::net_props(std::map<std::string, vsim::RunFn> &p) {
    p["C01"] = [](Ctx &c) {
        Opt o;
        o.atomic = true;
        o.split = true;
        o.inject = c.chance(1, 2);
        duo_run(c, o);
    };
    p["C02"] = determinism_run;
    p["C04"] = large_run;
    p["C06"] = graph_run;
    p["C10"] = time_types_run;
    p["C11"] = error_run;
    p["C12"] = lifetime_run;
    p["C03"] = [](Ctx &c) {
        if (c.chance(1, 6)) return mealy_graph_run(c);
        Opt o;
        o.mealy = true;
        o.split = true;
        o.inject = c.chance(1, 2);
        o.retract = c.chance(1, 2);
        o.listeners = true;
        o.max_pins = 9;
        duo_run(c, o);
    };
    p["C05"] = [](Ctx &c) {
        Opt o;
        o.dyn = c.chance(3, 4);
        o.env_dyn = c.chance(1, 2);
        o.mealy = c.chance(1, 3);
        o.inject = c.chance(1, 3);
        o.elsewhere = true;
        o.split = c.chance(1, 3);
        o.retract = o.split && c.chance(1, 3);
        duo_run(c, o);
    };
    p["C07"] = [](Ctx &c) {
        Opt o;
        o.coupled = true;
        o.multi_parent = true;
        o.restart = c.chance(1, 3);
        o.dyn = c.chance(3, 4);
        o.env_dyn = c.chance(1, 2);
        o.mealy = c.chance(1, 4);
        o.inject = c.chance(1, 2);
        o.split = c.chance(1, 3);
        o.retract = o.split && c.chance(1, 3);
        duo_run(c, o);
    };
    p["C08"] = [](Ctx &c) {
        if (c.chance(2, 5)) return federation_run(c);
        Opt o;
        o.restart = c.chance(1, 3);
        o.inject = true;
        o.split = true;
        o.retract = true;
        o.listeners = true;
        o.mealy = c.chance(1, 3);
        o.dyn = c.chance(1, 5);
        duo_run(c, o);
    };
    p["C09"] = [](Ctx &c) {
        Opt o;
        o.listeners = true;
        o.late_listeners = c.chance(1, 4);
        o.inject = true;
        o.split = true;
        o.retract = true;
        o.restart = c.chance(1, 6);
        o.mealy = c.chance(1, 2);
        o.dyn = c.chance(1, 4);
        duo_run(c, o);
    };
    // Time in other units, now and then
    for (auto &x : p) {
        x.second = [run = x.second](Ctx &c) {
            time_scale() = 1.0;
            if (c.chance(1, 12)) {
                static int const e[] = {-40, -20, 20, 40};
                time_scale() = std::ldexp(1.0, e[c.below(4)]);
                c.feature(time_scale() < 1.0 ? "short-units-of-time" : "long-units-of-time");
            }
            run(c);
        };
    }
}

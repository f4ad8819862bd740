"""The registry of harness binaries and checks."""

NET = ["core.cpp", "alloc.cpp", "net.cpp", "net_gen.cpp", "net_main.cpp", "net_props.cpp", "net_more.cpp", "net_sched.cpp",
       "net_sched2.cpp", "net_fed.cpp"]
NUM = ["core.cpp", "alloc.cpp", "num_main.cpp", "num_solvers.cpp", "num_hybrid.cpp", "num_cvode.cpp",
       "num_fmi.cpp", "num_malloc.cpp"]
BINARIES = {
    "net": {"sources": [("REPO/src/adevs.cpp", [])] + [(s, []) for s in NET] +
                       [("net_inst.cpp", ["-DINST=%d" % i]) for i in range(10)]},
    # The code under test and what instantiates it is instrumented, the rest (!) is not
    "thr": {"sources": [("REPO/src/adevs.cpp", [])] + [("net_inst.cpp", ["-DINST=%d" % i]) for i in range(10)] +
                       [(s, []) for s in ("net_sched.cpp", "num_solvers.cpp", "num_hybrid.cpp", "num_cvode.cpp", "num_fmi.cpp", "thr_jobs.cpp",
                                          "thr_rt.cpp!", "core.cpp!", "alloc.cpp!", "net.cpp!", "net_gen.cpp!", "net_props.cpp!",
                                          "net_more.cpp!", "net_sched2.cpp!", "net_fed.cpp!")],
            "include": ["fmistub"],
            "libs": ["-lsundials_kinsol", "-lsundials_cvode", "-lsundials_nvecserial", "-lsundials_sunmatrixdense",
                     "-lsundials_sunlinsoldense"]},
    "num": {"sources": [("REPO/src/adevs.cpp", [])] + [(s, []) for s in NUM], "include": ["fmistub"],
            "libs": ["-lsundials_kinsol", "-lsundials_cvode", "-lsundials_nvecserial", "-lsundials_sunmatrixdense",
                     "-lsundials_sunlinsoldense"]},
}

REAL_NET = ["adevs::Simulator, Graph, Coupled, Schedule, Atomic, MealyAtomic, pin_t, PinValue, EventListener "
            "and time types of /repo, compiled from the working tree, unmodified"]
STUB_NET = ["model behaviour: scripted models that are pure functions of a state hash",
            "placement: models live in a pool whose address order the seed chooses",
            "global operator new/delete: fill fresh memory, scribble over and hold back released memory"]
RULE_NET = ("seeded runs: each draws a value and time type combination (10), a network of scripted models "
            "(swarm: rates of zero/infinite time advance, output, structure change), an order of addresses, and a "
            "schedule of API steps and faults; a run is non-trivial when a fault fired, or a model received input, "
            "or two transitions were simultaneous; distinct = distinct hash of the complete history")


def net(**kw):
    d = {"plan": [("net", "plain", 8)], "quick_s": 16, "thorough_s": 240, "rule": RULE_NET,
         "real": REAL_NET, "stub": STUB_NET,
         "assumptions": ["times are sums of a few eighths (or small integers), exact in every time type used",
                         "sampling: a clean batch is evidence, not proof"]}
    d.update(kw)
    return d


REAL_NUM = ["adevs solvers, event locators, Hybrid and Simulator of /repo, compiled from the working tree, unmodified",
            "SUNDIALS (KINSOL and dense linear algebra) as installed"]
STUB_NUM = ["systems of equations with closed form solutions, whose event functions, inputs and discrete changes the "
            "seed draws",
            "KINSol: real, but a call chosen by the seed fails",
            "global operator new/delete: fill fresh memory, scribble over and hold back released memory"]
RULE_NUM = ("seeded runs: each draws a system of equations, solvers, tolerances, step limits, event functions and a "
            "schedule of steps, inputs and faults; a run is non-trivial when it took steps; distinct = distinct hash of "
            "the complete history")


def num(**kw):
    d = {"plan": [("num", "plain", 6), ("num", "asan", 2)], "quick_s": 14, "thorough_s": 240, "rule": RULE_NUM,
         "real": REAL_NUM, "stub": STUB_NUM,
         "assumptions": ["errors are judged against closed form solutions with an allowance per step taken",
                         "sampling: a clean batch is evidence, not proof"]}
    d.update(kw)
    return d


LOCK = ("Seeded exploration: every callback, notification, returned time and nextEventTime() of the real simulator is "
        "compared with an independently written reference simulator, run in lock step on hundreds of thousands of "
        "random networks and schedules. ")
TRUST = "Trusts the reference simulator and the generator's reach; a clean batch is evidence, not proof."

CHECKS = {
    "C01": net(note=LOCK + "Moore networks, ten value/time type combinations, injected input. " + TRUST),
    "C03": net(note=LOCK + "Networks mixing Moore and Mealy models under random address orders. " + TRUST),
    "C05": net(note=LOCK + "Structure changes by models and by the environment between cycles. " + TRUST),
    "C07": net(note=LOCK + "Hierarchies with shared parts against their flattening, edited while running. " + TRUST),
    "C08": net(note=LOCK + "Split cycles, repeated and abandoned outputs, injection, early stops. " + TRUST),
    "C09": net(note=LOCK + "Zero to three listeners. " + TRUST),
    "C02": net(repeatable_is_property=True,
               note="Seeded exploration: the same model and calls are run again under other address orders, creation "
                    "orders, fresh-memory contents, after and between other simulations; bag-equal histories. " + TRUST),
    "C04": net(note="Seeded exploration: the Schedule driven directly and through networks of up to thousands of models, "
                    "against a sorted reference. " + TRUST),
    "C06": net(note="Seeded exploration: histories of graph edits, direct and provisional, against a counted multigraph. "
               + TRUST),
    "C10": net(note="Seeded exploration: one network over all ten time types with equal histories; algebraic laws of "
                    "sd_time and double_fcmp at drawn boundary values. " + TRUST),
    "C11": net(plan=[("net", "plain", 5), ("net", "asan", 3)], quick_s=18,
               note="Seeded exploration: a failure in a drawn callback at a drawn point, with bystander simulators; "
                    "outcome, culprit and bystanders checked; part of the runs under address sanitizer. " + TRUST),
    "C12": net(plan=[("net", "plain", 4), ("net", "asan", 4)], quick_s=18,
               note="Seeded exploration: destruction times and allocation balance under structure changes, failing "
                    "allocations and throwing callbacks; half of the workers under address sanitizer. " + TRUST),
    "C13": num(note="Seeded exploration: networks of one to three hybrid models with exact trajectories, inputs before, "
                    "at and between steps and events; every state handed to a callback, every event and every output "
                    "accounted for. " + TRUST),
    "C14": num(note="Seeded exploration: histories of steps of all three solvers on systems with closed form solutions, "
                    "with failing nonlinear solves, against an allowance per step. " + TRUST),
    "C16": num(real=REAL_NUM[:1] + ["adevs::CVODE, compiled from the working tree", "CVode of SUNDIALS, in a quarter of the models"],
               stub=["an exact integrator that takes steps of drawn lengths, in the other models"] + STUB_NUM[::2],
               note="Seeded exploration: networks of models behind the CVODE wrapper with exact trajectories, driven by the "
                    "real CVode or by an exact stand-in that keeps book of what it is asked for; inputs at, just before and "
                    "between steps. " + TRUST),
    "C17": num(real=["ModelExchange (solvers/fmi.h) of /repo, with the Hybrid, solvers, event locators and Simulator "
                     "it works in, compiled from the working tree, unmodified"],
               stub=["the FMI Library and the FMU: a simulated FMU with exact trajectories behind the functions of the "
                     "library, which polices the protocol and may answer any call with an error status",
                     "abort(): a failed assertion is caught, as the way ModelExchange reports an error status"] + STUB_NUM[2:],
               note="Seeded exploration: simulated FMUs (states, inputs, outputs, event indicators, time and step events, "
                    "event iteration) under the wrapper, driven by all solvers and locators, with inputs and variable "
                    "accesses at drawn moments and an error status from a drawn call. " + TRUST),
    "C18": {"plan": [("thr", "tsan", 8)], "quick_s": 16, "thorough_s": 240,
            "rule": "seeded runs, each in a process of its own: two to four threads, each with a simulation (any of the jobs of "
                    "the checks of networks and of hybrid models), a small network or the creation of pins; the scheduler "
                    "may pass the baton at every access that the compiler instruments; a run is non-trivial when a thread was "
                    "interrupted; distinct = distinct hash of the interleaving and of all histories",
            "real": REAL_NET + REAL_NUM, "stub": STUB_NET[:2] + [
                "thread scheduling: real threads, of which only the one that holds the baton runs",
                "the runtime of -fsanitize=thread, pthread mutexes, once and the guards of local statics: replaced by "
                "points at which the scheduler decides, and by a happens-before race detector",
                "global operator new/delete, malloc: tracked"],
            "state_measure": "hash of (points of interruption, thread that goes on)",
            "technique": "deterministic simulation: seeded search over the interleavings of threads at every memory access, with "
                         "happens-before race detection and comparison of each history with that of the same run alone",
            "assumptions": ["interleavings are sequentially consistent; weaker orders are judged by happens-before alone",
                            "accesses inside of the C and C++ libraries are not seen",
                            "sampling: a clean batch is evidence, not proof"],
            "note": "Seeded exploration of thread interleavings at the granularity of single memory accesses, each run in a fresh "
                    "process so that one-time initialisation is raced for, too. Trusts the instrumentation of the compiler."},
    "C15": num(note="Seeded exploration: all event locators on trajectories with known crossing times. " + TRUST),
}

NOT_APPLICABLE = {}

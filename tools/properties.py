#!/usr/bin/env python3
"""Source of properties.jsonl (run it to regenerate the file)."""
import json, os
H = "include/adevs/"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                    "mechanism": [{"name": a, "where": b} for a, b in mech],
                    "observe_at": list(observe), "hook_needed": hook}})


prop("C01", "Simulation follows the parallel DEVS algorithm",
     "For every network of atomic models, each simulation cycle happens at the smallest scheduled event time, asks "
     "exactly the imminent models for output, delivers every output (and injected input) once per path to the models "
     "it is connected to, and then makes exactly one internal, external or confluent transition, with the right elapsed "
     "time and input, in every imminent or receiving model and none in any other. Between cycles no model changes, and "
     "nextEventTime() is always the earliest time at which a model is scheduled.",
     ["inputs", "programs", "schedules", "histories"],
     "every network, every scripted behaviour of its models (zero and infinite time advance, ties), every sequence of "
     "API calls, every value and time type",
     "The tests run a handful of fixed models and compare printed traces; the property quantifies over all networks, "
     "all coincidences of events and all orders of models that the simulator may visit.",
     [H + "simulator.h", H + "sched.h", H + "graph.h", H + "models.h"],
     [("computeNextOutput/computeNextState", H + "simulator.h"), ("binary heap of next event times", H + "sched.h")],
     [("tL, tN", "time of last and next event of a model", H + "models.h")],
     ["Atomic callbacks", "Simulator::nextEventTime", "Simulator::execNextEvent"])
prop("C02", "Same model, same history: no dependence on memory or on other runs",
     "The history of a simulation (outputs, inputs as bags, state changes and their times) is a function of the model and "
     "of the sequence of calls alone: it does not change with the order in which models, pins and couplings were created "
     "or stored in memory, with the contents of fresh memory, with being the first or a later simulation in the process, "
     "or with other simulators stepped in between, also from within its models.",
     ["schedules", "histories", "configurations"],
     "every network, every placement of its models in memory, every creation order, every interleaving with other "
     "simulators in the same process",
     "A test observes one placement and one order; sets of pointers inside the simulator are ordered by address, which "
     "tests neither control nor vary.",
     [H + "simulator.h", H + "graph.h", H + "models.h", H + "sched.h"],
     [("sets of active models ordered by address", H + "simulator.h"), ("uninitialised members", H + "models.h")],
     [], ["Atomic callbacks", "EventListener"])
prop("C03", "Mealy models: outputs settle before any state changes",
     "In every cycle each Mealy model's published output is the output for exactly the complete bag of input that it then "
     "receives in its transition, whatever the order in which intermediate outputs were computed and withdrawn; models "
     "whose input was withdrawn make no transition. A loop of Mealy models that feed each other ends in an "
     "adevs::exception, and a network without such a loop never does.",
     ["programs", "schedules", "inputs"],
     "every acyclic network of Moore and Mealy models, every cyclic one, every order of evaluation, every mix of "
     "imminent and receiving Mealy models and injected input",
     "Two tests exercise one small chain and one cellular automaton; the evaluation order depends on addresses and the "
     "retraction logic matters only for particular diamonds and orders.",
     [H + "simulator.h", H + "models.h"],
     [("calculate_mealy_output, retract_mealy_output", H + "simulator.h")],
     [("revisable_inputs, receivers, orphaned", "input that may still be withdrawn", H + "models.h")],
     ["EventListener::outputEvent", "MealyAtomic transitions"])
prop("C04", "The event schedule never loses, delays or invents an event",
     "For any number of models and any sequence of insertions, advances, postponements, removals and re-insertions of "
     "their next event times, including ties and infinity, the schedule reports the minimum, exactly the models that "
     "are due at it, and its size. This holds for the schedule of the simulator and for its successor in schedule2.h (as "
     "far as that can be compiled), which also refuses to add a model twice or to remove one that it does not have.",
     ["histories", "inputs", "configurations"],
     "every history of reschedulings of up to thousands of models, across growth of the schedule, with every time type",
     "The scheduler test sorts some random numbers; heap damage needs particular shapes (removal in the middle, ties "
     "across subtrees, growth at a boundary) in long histories.",
     [H + "sched.h", H + "schedule2.h", H + "simulator.h"],
     [("percolate_up, percolate_down, visitImminent, enlarge", H + "sched.h"),
      ("add, remove, update, remove_index, percolate_up, percolate_down", H + "schedule2.h")],
     [("q_index", "place of a model in the heap", H + "models.h")],
     ["Schedule public functions", "Simulator::nextEventTime", "set of models that change at each event"])
prop("C05", "Structure changes take effect once, at the end of the cycle",
     "Additions, removals and changes of couplings requested while a simulation runs, by models or between cycles, leave "
     "the cycle in progress untouched and are applied in the order requested at its end; from then on models that joined "
     "are scheduled relative to that time, models that left receive nothing and do nothing, and instance counts decide "
     "when a model or coupling really goes.",
     ["histories", "schedules", "programs"],
     "every history of structure changes by any number of models and by the environment, at every point of a cycle",
     "Three tests add, remove or move one model in a fixed scenario.",
     [H + "simulator.h", H + "graph.h", H + "models.h"],
     [("provisional mode and pending operations", H + "graph.h"), ("application of pending operations", H + "simulator.h")],
     [("pending", "queue of requested changes", H + "graph.h")],
     ["Atomic callbacks", "Graph::get_atomics"])
prop("C06", "Graph routing follows instance-counted connections",
     "After any sequence of additions, connections, disconnections and removals, routing an event from a pin reaches "
     "exactly the models reachable over the connections that still have instances, once per path and naming the last "
     "pin on the path; get_atomics() is exactly the set of models with instances. In provisional mode nothing changes "
     "until the pending operations are committed, and then the result is the same as if they had been made directly. "
     "Pins keep their identity, and events their pin and value, through copies and assignments, and compare by identity.",
     ["histories", "programs"],
     "every history of graph edits, split in every way between direct and provisional mode",
     "The graph test makes one pass over a small graph; counts, duplicates, shared paths and removal of pins combine "
     "in ways that only long random histories reach.",
     [H + "graph.h"],
     [("instance counts on edges and models", H + "graph.h"), ("queue_* and get_pending", H + "graph.h")],
     [("pin_to_atomic, pin_to_pin, atomic_instance_count", "counted edges and models", H + "graph.h")],
     ["Graph::route", "Graph::get_atomics", "Graph::get_pending"])
prop("C07", "A coupled hierarchy behaves as its flattened network",
     "At every time a simulation of a Coupled model behaves as the flat network made of the union of the atomic models and "
     "couplings of all coupled models in the hierarchy, whatever the order of assembly, and however often a model or "
     "coupled model occurs in it. Later edits of any coupled model in the hierarchy, including adding and removing "
     "whole subtrees, change the running simulation accordingly, and edits of a coupled model outside of it do not. "
     "Adding to a coupled model what it has already, or removing what it does not have, changes nothing.",
     ["histories", "programs", "schedules"],
     "every hierarchy with shared parts, every history of edits before and during the simulation",
     "One test adds and removes parts of a single coupled model.",
     [H + "models.h", H + "graph.h", H + "simulator.h"],
     [("assign_to_graph, remove_from_graph", H + "models.h"), ("instance counts", H + "graph.h")],
     [("g, instances", "graph a coupled model belongs to and how often", H + "models.h")],
     ["Atomic callbacks"])
prop("C08", "A simulator embedded in a larger simulation equals one whole",
     "Driving a simulator step by step (computing outputs ahead, repeating or abandoning that computation, moving the next "
     "time forward to meet an input and back again when that is withdrawn, injecting and clearing inputs) gives exactly the history that the algorithm defines "
     "for those inputs. A model split over several simulators that exchange their outputs in time order has the same "
     "history as the undivided model, whatever the delays, reordering, duplication and loss in the exchange, and also "
     "when a federate is restarted from its recorded inputs.",
     ["schedules", "fault_sequences", "crash_points", "histories"],
     "every partition of every network into federates, every schedule of message delays and faults, every crash point, "
     "every interleaving of the step-by-step calls",
     "No test uses injection, setNextTime or repeated output computation in combination, and none has a network.",
     [H + "simulator.h"],
     [("injectInput, setNextTime, computeNextOutput, computeNextState", H + "simulator.h")],
     [("external_input, active, tNext", "state between the two halves of a cycle", H + "simulator.h")],
     ["EventListener", "Simulator::nextEventTime"])
prop("C09", "Listeners see every event exactly once, in order and in time",
     "Each registered listener is told exactly once, from its registration on, of every output value, every input value and every state change, with "
     "the model, the value, the pin and the time of the event; inputs are announced before and state changes after the "
     "transition they belong to, outputs before any transition of the cycle. Listening does not change the simulation.",
     ["histories", "schedules"],
     "every network, every number of listeners, every history of cycles including Mealy models and withdrawn outputs",
     "Two tests look at a fixed model with one listener.",
     [H + "simulator.h"],
     [("outputEvent, inputEvent, stateChange calls", H + "simulator.h")],
     [], ["EventListener"])
prop("C10", "Time types keep their laws and simulate alike",
     "Simulations over float, double, long double, integer, tolerance-compared and super-dense time have the same history "
     "whenever the event times are representable in all of them. Super-dense time orders instants lexicographically, adds "
     "and subtracts durations so that advancing by a length and measuring it agree, and orders every event of a cascade "
     "of zero delays strictly; tolerance-compared time treats events within the tolerance as simultaneous, "
     "with comparison operators that agree.",
     ["inputs", "histories", "configurations"],
     "every pair and triple of times near boundaries, every network run over every time type, every jitter of the clock "
     "below the tolerance",
     "The tests check some sums of super-dense times and one comparison.",
     [H + "time.h", H + "simulator.h", "src/adevs.cpp"],
     [("sd_time operators", H + "time.h"), ("double_fcmp::fcmp", "src/adevs.cpp"), ("adevs_epsilon", H + "time.h")],
     [], ["sd_time, double_fcmp operators", "Simulator histories"])
prop("C11", "Model errors stop the simulation loudly and hurt nobody else",
     "A negative time advance, at the start, after a transition or when a model joins, is reported as an adevs::exception "
     "that names the offending model, and a loop of Mealy models as an adevs::exception; an exception thrown by a model "
     "or listener reaches the caller unchanged. After such an error every other simulator in the process continues "
     "correctly, and the failed one can be destroyed without leaks or invalid accesses.",
     ["fault_sequences", "crash_points", "histories"],
     "every callback in which a model can fail, at every point of every history, with other simulators running",
     "No test makes a model fail in a running simulation.",
     [H + "simulator.h", H + "exception.h"],
     [("check of the time advance", H + "simulator.h"), ("check for Mealy cycles", H + "simulator.h")],
     [], ["exceptions from Simulator functions", "exception::who"])
prop("C12", "Models live exactly as long as they are needed",
     "The library never touches a model, listener or value after releasing it and releases each exactly once; a model that "
     "is no longer part of a structure, whose references elsewhere are gone, is destroyed promptly, and destroying a "
     "simulator and its structures releases everything they held. This holds for any history of structure changes and "
     "also when an allocation fails or a callback throws at any point.",
     ["histories", "fault_sequences", "crash_points"],
     "every history of structure changes, every allocation that may fail, every callback that may throw",
     "The tests do not run under a memory checker, and never fail an allocation.",
     [H + "simulator.h", H + "graph.h", H + "models.h", H + "sched.h"],
     [("shared ownership of models", H + "graph.h"), ("raw pointers to models in the simulator", H + "simulator.h")],
     [], ["destructors of models", "allocation functions", "address sanitizer"])
prop("C13", "Hybrid models evolve continuously and hit their events",
     "A hybrid model integrates its differential equations from each discrete event to the next, makes internal discrete "
     "changes at the times at which its state or time events occur (each once, in time order, none missed for an input "
     "that arrives between or just before them), passes each input to the discrete transition together with the "
     "continuous state at that instant and the time since the last discrete change, and produces its outputs once per "
     "event, at its time, from the state just before the change. Its trajectory does not depend on how "
     "often it is interrupted by unrelated inputs or on solver step sizes, within the tolerance asked for. It releases "
     "the system, solver and event locator that it adopts. A callback that throws ends the simulation with that "
     "exception, after which everything can be released.",
     ["schedules", "histories", "inputs"],
     "every hybrid network with known trajectories, every schedule of inputs in continuous time, every solver and "
     "event locator, every maximum step",
     "The tests compare three scenarios with closed form solutions; inputs between an accepted step and its event, and "
     "simultaneous events, are not met.",
     [H + "solvers/hybrid.h"],
     [("tentative step and its reuse by delta_ext", H + "solvers/hybrid.h"), ("event locator", H + "solvers/event_locators.h")],
     [("q, q_trial, sigma, e_accum, event", "current state, tentative state, time left and spent", H + "solvers/hybrid.h"),
      ("missedOutput", "output of an event found when an input arrived", H + "solvers/hybrid.h")],
     ["ode_system callbacks", "Hybrid::getState"])
prop("C14", "ODE solvers meet their error tolerance and never overstep",
     "advance(q, h) carries the state over exactly the interval h and integrate(q, h_lim) over a positive step no longer "
     "than h_lim or the maximum step, which it returns; in both cases the result differs from the exact solution by no "
     "more than a modest multiple of the tolerance per step (the explicit solvers), or satisfies the trapezoidal rule "
     "for the steps taken (the implicit solver), for every smooth system, repeatedly and in any order of calls, also when "
     "a nonlinear solve fails along the way. With shorter steps the error falls as the documented order of the method says "
     "(two for corrected_euler, five for rk_45). Only the state passed in is changed and all memory is released in the end.",
     ["inputs", "histories", "fault_sequences"],
     "every linear and mildly nonlinear system with known solution, every history of steps, every tolerance, every "
     "failure of a nonlinear solve",
     "Tests integrate a few systems with one sequence of steps.",
     [H + "solvers/rk_45.h", H + "solvers/corrected_euler.h", H + "solvers/trap.h"],
     [("trial_step and adaptive step", H + "solvers/rk_45.h"), ("trial_step", H + "solvers/corrected_euler.h"),
      ("Newton iteration", H + "solvers/trap.h")],
     [("h_cur", "last successful step size", H + "solvers/rk_45.h")], ["ode_solver::advance", "ode_solver::integrate"])
prop("C15", "Event locators find the first crossing and only real crossings",
     "find_events reports an event only at a state at which a state event function has reached or crossed its threshold, "
     "within the tolerance of the crossing, and its flags name exactly the functions that did. Whatever it returns, no "
     "event function has crossed before the end of the step that it leaves (a step may be shortened without an event "
     "when the locator needs another look), and searching on from there finds the first crossing after finitely many "
     "calls. Without a crossing, step and state stay as they are.",
     ["inputs", "histories"],
     "every set of event functions monotone over the step, every crossing order, tolerance and solver",
     "The tests locate single events on a few trajectories.",
     [H + "solvers/event_locators.h", H + "solvers/spline.h"],
     [("bisection, linear interpolation, discontinuous and fast locators", H + "solvers/event_locators.h")],
     [], ["event_locator::find_events"])
prop("C16", "Models solved with CVODE follow their equations and events",
     "A model driven by the CVODE wrapper follows the solution of its differential equations within the tolerances asked "
     "for; each root of its event functions leads to exactly one output and one internal change, at the root, with the "
     "crossed functions named; each input reaches the model once with the state at exactly the time of the input, also "
     "when the integrator had already gone further; the state restarts cleanly after each discrete change, and several "
     "such models do not influence each other. All memory is released in the end.",
     ["histories", "inputs", "schedules"],
     "every history of steps, roots and inputs, every tolerance and final time",
     "One test integrates one bouncing ball without inputs.",
     [H + "solvers/cvode.h"],
     [("one step ahead, roll back to the time of an input", H + "solvers/cvode.h")],
     [("tL, tN, roots", "start and end of the step taken ahead, and the events at its end", H + "solvers/cvode.h")],
     ["CVODE callbacks", "getState"])
prop("C17", "Imported FMUs are driven by the FMI model exchange protocol",
     "A wrapped FMU sees a legal sequence of calls (modes, times, states) and is asked for derivatives, event indicators and "
     "Jacobians at exactly the time and state in question; its time, state and step events lead to discrete transitions at "
     "the right times, event iteration runs until the FMU asks for no more, variables read and written are those of the "
     "FMU (a name that it does not have is refused), and an error status from initialising, simulating or accessing the "
     "FMU is never ignored.",
     ["histories", "fault_sequences", "schedules"],
     "every simulated FMU, every history of events and variable accesses, every call that may fail",
     "The FMI tests need tools that are not available and do not run here.",
     [H + "solvers/fmi.h"],
     [("ModelExchange callbacks", H + "solvers/fmi.h")],
     [("next_time_event, cont_time_mode", "protocol state", H + "solvers/fmi.h")], ["calls to the fmi2_import functions"])
prop("C18", "Pins are unique and simulators independent across threads",
     "Pins created concurrently by any threads are all different, and simulators that share no models may be built, run and "
     "destroyed by different threads at the same time without data races and each with the same history as when run alone.",
     ["schedules"],
     "every interleaving of threads that create pins and run separate simulations",
     "All tests have a single thread.",
     [H + "models.h", "src/adevs.cpp", H + "simulator.h"],
     [("atomic counter of pin identities", "src/adevs.cpp")],
     [("atom", "next pin identity", H + "models.h")], ["pin_t comparison", "memory accesses"])

if __name__ == "__main__":
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")

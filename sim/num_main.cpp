// Harness for the continuous part: solvers, event locators, hybrid models,
// the SUNDIALS wrapper and imported FMUs.
#include "num.hpp"
int main(int argc, char** argv) {
    std::map<std::string, vsim::RunFn> p;
    p["C14"] = num::solver_run;
    p["C15"] = num::locator_run;
    p["C13"] = num::hybrid_run;
    p["C16"] = num::cvode_run;
    p["C17"] = num::fmi_run;
    return vsim::worker_main(argc, argv, p);
}

// Checks over networks of scripted models.
#include "core.hpp"
namespace net {
void net_props(std::map<std::string, vsim::RunFn> &p);
}
int main(int argc, char** argv) {
    std::map<std::string, vsim::RunFn> p;
    net::net_props(p);
    return vsim::worker_main(argc, argv, p);
}

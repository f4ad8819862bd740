// One instantiation of the code under test per value of INST.
#include "net_real.hpp"
#if INST == 0
using V = long; using T = double;
double adevs::double_fcmp::epsilon = 1e-7;
#elif INST == 1
using V = std::any; using T = double;
#elif INST == 2
using V = long; using T = int;
#elif INST == 3
using V = std::any; using T = long;
#elif INST == 4
using V = long; using T = float;
#elif INST == 5
using V = std::shared_ptr<long>; using T = long double;
#elif INST == 6
using V = long; using T = adevs::sd_time<int>;
#elif INST == 7
using V = std::any; using T = adevs::sd_time<double>;
#elif INST == 8
using V = long; using T = adevs::sd_time<long>;
#elif INST == 9
using V = std::shared_ptr<long>; using T = adevs::double_fcmp;
#endif
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
namespace net {
IReal* CAT(make_real_, INST)(World* w) { return new Real<V, T>(w); }
bool const CAT(inst_sd_, INST) = TT<T>::sd;
}

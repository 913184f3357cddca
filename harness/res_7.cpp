#include "res_tc.hpp"
VF_ROOT(rt::mixed)

#include "res_tc.hpp"
VF_ROOT(rt::maps)
VF_ROOT(rt::root_map)

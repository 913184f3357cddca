#include "res_tc.hpp"
VF_ROOT(rt::root_opt)
VF_ROOT(rt::root_vec)

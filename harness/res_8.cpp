#include "res_tc.hpp"
VF_ROOT(rt::fragile)
VF_ROOT(rt::fragiles)

#include "res_ta.hpp"
VF_ROOT(rt::gder)

#include "res_tb.hpp"
VF_ROOT(rt::keyed)

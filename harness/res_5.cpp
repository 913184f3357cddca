#include "res_tb.hpp"
VF_ROOT(rt::tree)
VF_ROOT(rt::cells)

#include "json_attr_types.hpp"
VF_ATTR(jt::flat_in)
VF_ATTR(jt::flat_out)
VF_ATTR(jt::flat_deep)
VF_ATTR(jt::flat_base)
VF_ATTR(jt::extra_int)
VF_ATTR(jt::extra_opt)
VF_ATTR(jt::extra_obj)
VF_ATTR(jt::extra_nest)
VF_ATTR(jt::extra_flat)
VF_ATTR(jt::attr_derived)
VF_ATTR(jt::combo)
VF_ATTR(jt::vers)
VF_ATTR(jt::required)
VF_ATTR(jt::callables)
VF_ATTR(jt::extra_less)
VF_ATTR(jt::viaacc)
VF_ATTR(std::vector<jt::viaacc>)

#include "json_attr_types.hpp"
VF_ATTR(jt::renamed)
VF_ATTR(jt::swapped)
VF_ATTR(jt::skips)
VF_ATTR(jt::nulls)
VF_ATTR(jt::empties)
VF_ATTR(jt::defaults)
VF_ATTR(jt::missing)
VF_ATTR(jt::valid)
VF_ATTR(jt::ranged)
VF_ATTR(std::vector<jt::valid>)
VF_ATTR(std::vector<jt::missing>)
VF_ATTR(std::map<std::string, jt::missing>)
VF_ATTR(std::list<jt::attr_base>)
VF_ATTR(std::optional<jt::missing>)
VF_ATTR(std::vector<jt::defaults>)
VF_ATTR(std::pair<jt::missing, jt::ranged>)

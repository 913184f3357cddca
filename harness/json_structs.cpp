#include "json_types.hpp"
VF_PLAIN(jt::inner)
VF_PLAIN(jt::scalars)
VF_PLAIN(jt::opts)
VF_PLAIN(jt::base)
VF_PLAIN(jt::derived)
VF_PLAIN(jt::leaf)
VF_PLAIN(jt::node)
VF_PLAIN(jt::mixed)
VF_PLAIN(jt::secret)
VF_PLAIN(jt::allopt)
VF_PLAIN(std::vector<jt::derived>)
VF_PLAIN(std::map<std::string, jt::opts>)
VF_PLAIN(std::optional<jt::leaf>)
VF_PLAIN(std::tuple<jt::inner, std::optional<jt::base>, int>)
VF_PLAIN(std::array<jt::allopt, 3>)

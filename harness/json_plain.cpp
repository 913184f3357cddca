#include "json_types.hpp"
#define PLAIN_PART 1
VF_PLAIN(bool) 
VF_PLAIN(std::int8_t)
VF_PLAIN(std::uint8_t)
VF_PLAIN(std::int16_t)
VF_PLAIN(std::uint16_t)
VF_PLAIN(std::int32_t)
VF_PLAIN(std::uint32_t)
VF_PLAIN(std::int64_t)
VF_PLAIN(std::uint64_t)
VF_PLAIN(float)
VF_PLAIN(double)
VF_PLAIN(std::string)
VF_PLAIN(jt::color)
VF_PLAIN(jt::level)
VF_PLAIN(jt::raw8)
VF_PLAIN(jt::raw64)
VF_PLAIN(kl::enum_set<jt::flag>)
VF_PLAIN(std::optional<int>)
VF_PLAIN(std::optional<std::string>)
VF_PLAIN(std::vector<int>)
VF_PLAIN(std::vector<bool>)
VF_PLAIN(std::vector<std::string>)
VF_PLAIN(std::list<std::string>)
VF_PLAIN(std::deque<double>)
VF_PLAIN(std::vector<std::optional<jt::color>>)
VF_PLAIN(std::array<int, 3>)
VF_PLAIN(std::array<std::optional<std::string>, 2>)
VF_PLAIN(std::array<std::uint8_t, 0>)
VF_PLAIN(std::tuple<int, std::string, std::optional<double>>)
VF_PLAIN(std::tuple<>)
VF_PLAIN(std::pair<std::string, bool>)
VF_PLAIN(std::pair<std::optional<int>, std::vector<int>>)
VF_PLAIN(std::map<std::string, int>)
VF_PLAIN(std::unordered_map<std::string, std::vector<int>>)
VF_PLAIN(std::map<std::string, std::optional<int>>)
VF_PLAIN(std::vector<std::map<std::string, std::tuple<jt::level, std::string>>>)
VF_PLAIN(std::optional<std::vector<std::optional<int>>>)
VF_PLAIN(std::map<std::string, kl::enum_set<jt::flag>>)
VF_PLAIN(jt::dup)
VF_PLAIN(kl::enum_set<jt::perm>)
VF_PLAIN(std::vector<std::pair<jt::dup, kl::enum_set<jt::perm>>>)
VF_PLAIN(std::map<std::string, std::deque<std::array<double, 2>>>)
VF_PLAIN(std::tuple<std::list<bool>, std::optional<jt::raw8>, std::map<std::string, std::string>>)
#ifndef VF_YAML // a char is a number in JSON and a character in YAML
VF_PLAIN(char)
VF_PLAIN(std::vector<char>)
#endif
#if (VF_OPS & 3) == 0 // exist on the reading side only
VF_PLAIN(long long)
VF_PLAIN(unsigned long long)
#endif
VF_PLAIN(std::vector<unsigned char>)
VF_PLAIN(std::map<std::string, int, std::less<>>)
VF_PLAIN(std::vector<std::vector<std::vector<int>>>)

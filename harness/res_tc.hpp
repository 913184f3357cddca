#pragma once
#include "res_types.hpp"
namespace rt {
using tmap = std::map<std::string, leaf, std::less<>>;
struct maps { std::map<std::string, int> m; tmap ml; std::map<std::string, leaf> rom; std::map<std::string, leaf> subm; std::map<std::string, std::map<std::string, int>> mm; std::optional<std::map<std::string, leaf>> om; std::optional<std::vector<int>> ov; std::optional<std::vector<leaf>> subov; std::map<std::string, std::optional<leaf>> mo; std::optional<std::array<int, 2>> oa; };
KL_REFLECT_STRUCT(maps, m, ml, (rom, ra::read_only), (subm, ra::subtree_read_only), mm, om, ov, (subov, ra::subtree_read_only), mo, oa)
struct inner2 { std::map<std::string, item> by; std::vector<item> items; int x = 0; std::optional<maps> deep; };
KL_REFLECT_STRUCT(inner2, by, (items, ra::child_key<&item::id>), (x, ra::read_only), deep)
struct mixed { std::map<std::string, inner2> ms; std::optional<inner2> oi; inner2 frozen; std::vector<inner2> vs; };
KL_REFLECT_STRUCT(mixed, ms, oi, (frozen, ra::subtree_read_only), vs)
// user types that throw
struct fragile { frag f; std::vector<frag> v; std::map<std::string, frag> m; std::optional<frag> o; moody md; std::vector<moody> mv; leaf l; int n = 0; };
KL_REFLECT_STRUCT(fragile, f, v, m, o, md, mv, l, n)
struct fragiles { std::vector<fragile> fs; std::optional<fragile> of; std::array<frag, 2> fa; int tail = 0; };
KL_REFLECT_STRUCT(fragiles, fs, of, fa, tail)
using root_map = std::map<std::string, leaf>;
using root_opt = std::optional<maps>;
using root_vec = std::vector<leaf>;
}
namespace jm {
VF_D(rt::maps, f_(m), f_(ml), f_(rom).rdonly(), f_(subm).subro(), f_(mm), f_(om), f_(ov), f_(subov).subro(), f_(mo), f_(oa))
VF_D(rt::inner2, f_(by), f_(items).keyed("id"), f_(x).rdonly(), f_(deep))
VF_D(rt::mixed, f_(ms), f_(oi), f_(frozen).subro(), f_(vs))
VF_D(rt::fragile, f_(f), f_(v), f_(m), f_(o), f_(md), f_(mv), f_(l), f_(n))
VF_D(rt::fragiles, f_(fs), f_(of), f_(fa), f_(tail))
template <> struct shape<rt::maps> { static void fix(rt::maps& v, rng&) { if (v.subov && v.subov->size() > 6) v.subov->resize(6); } };
template <> struct shape<rt::inner2> { static void fix(rt::inner2& v, rng&) { rt::dedupe(v.items, &rt::item::id); } };
}

#pragma once
#include "res_types.hpp"
namespace rt {
// read-only fields and subtrees around structs, optionals and scalars; a validator that relates distant fields
struct guarded
{
    int a = 0; std::string b; leaf l; leaf rol; leaf sub; leaf full; std::optional<int> oi; std::optional<leaf> ol; std::optional<leaf> rool; std::optional<leaf> subol; int roi = 0; int peer = 0;
    template <class C> void validate_resource(C&) const;
};
KL_REFLECT_STRUCT(guarded, a, (b, sa::rename("bee"), sa::aliases("buzz")), l, (rol, ra::read_only), (sub, ra::subtree_read_only), (full, ra::read_only, ra::subtree_read_only), oi, ol, (rool, ra::read_only), (subol, ra::subtree_read_only), (roi, ra::read_only), peer)
inline std::string bad_guarded(const guarded& g) { return (g.peer == 1 && !g.oi) || (g.a == 99 && g.sub.i != 99) ? "peer needs oi" : ""; }
// sequences and maps of everything
struct lists { std::vector<int> v; std::vector<leaf> ls; std::array<int, 3> arr{}; std::array<leaf, 2> la; std::vector<std::vector<int>> vv; std::vector<std::optional<int>> vo; std::list<int> li; std::deque<leaf> dq; std::vector<int> rov; std::vector<leaf> subv; std::array<int, 2> suba{}; std::tuple<int, std::string> t; std::vector<std::string> strs; };
KL_REFLECT_STRUCT(lists, v, ls, arr, la, vv, vo, li, dq, (rov, ra::read_only), (subv, ra::subtree_read_only), (suba, ra::subtree_read_only), t, strs)
struct gbase { int gb = 0; std::vector<int> list; };
KL_REFLECT_STRUCT(gbase, gb, (list, ra::read_only))
struct gder : gbase { leaf l; guarded g; std::optional<lists> maybe; };
KL_REFLECT_STRUCT_DERIVED(gder, gbase, l, (g, ra::read_only), maybe)
}
namespace jm {
VF_D(rt::guarded, f_(a), f_(b).ren("bee").alias({"buzz"}), f_(l), f_(rol).rdonly(), f_(sub).subro(), f_(full).rdonly().subro(), f_(oi), f_(ol), f_(rool).rdonly(), f_(subol).subro(), f_(roi).rdonly(), f_(peer))
VF_D(rt::lists, f_(v), f_(ls), f_(arr), f_(la), f_(vv), f_(vo), f_(li), f_(dq), f_(rov).rdonly(), f_(subv).subro(), f_(suba).subro(), f_(t), f_(strs))
VF_D(rt::gder, f_(gb), f_(list).rdonly(), f_(l), f_(g).rdonly(), f_(maybe))
template <> struct shape<rt::guarded> { static void fix(rt::guarded& v, rng& r) { if (r.coin()) { v.peer = 1; v.oi = 5; } else if (v.peer == 1) v.peer = 2; if (v.a == 99) v.a = 98; } };
template <> struct shape<rt::lists> { static void fix(rt::lists& v, rng&) { if (v.ls.size() > 6) v.ls.resize(6); if (v.subv.size() > 6) v.subv.resize(6); } };
}
namespace rm {
template <> struct RV<rt::guarded> { static std::string check(const rt::guarded& v) { return rt::bad_guarded(v); } };
template <> struct hooks<rt::guarded> { static constexpr bool root_logged = true; };
}
template <class C> void rt::guarded::validate_resource(C&) const { if (rm::root_log()) rm::root_log()->push_back(jm::show(jm::enc(*this, false))); user_validate(bad_guarded(*this)); }

#pragma once
#include "res_types.hpp"
namespace rt {
struct keyed { std::vector<item> items; std::vector<item> roitems; std::vector<item> subitems; std::vector<locked> ints; std::list<item> li; int total = 0; template <class C> void validate_resource(C&) const; };
KL_REFLECT_STRUCT(keyed, (items, ra::child_key<&item::id>), (roitems, ra::child_key<&item::id>, ra::read_only), (subitems, ra::subtree_read_only, ra::child_key<&item::id>), (ints, sa::rename("numbers"), ra::child_key<&locked::key>), (li, ra::child_key<&item::id>), total)
inline std::string bad_keyed(const keyed& k) { return k.items.size() > 7 ? "too many items" : k.total == 5 && k.items.empty() ? "total without items" : ""; }
struct tree { std::string name; std::vector<tree> kids; std::optional<leaf> l; };
KL_REFLECT_STRUCT(tree, name, (kids, ra::child_key<&tree::name>), l)
struct cell { key2 key; leaf l; std::vector<item> sub; };
KL_REFLECT_STRUCT(key2, a, b)
KL_REFLECT_STRUCT(cell, key, l, (sub, ra::child_key<&item::id>))
inline bool resource_key_matches(const cell&, const key2& k, std::string_view seg) { return k.a + "-" + std::to_string(k.b) == seg; }
struct cells { std::vector<cell> cs; std::map<std::string, std::vector<item>> plain; std::optional<tree> ot; };
KL_REFLECT_STRUCT(cells, (cs, ra::child_key<&cell::key>), plain, ot)
}
namespace jm {
VF_D(rt::keyed, f_(items).keyed("id"), f_(roitems).keyed("id").rdonly(), f_(subitems).keyed("id").subro(), f_(ints).ren("numbers").keyed("key"), f_(li).keyed("id"), f_(total))
VF_D(rt::tree, f_(name), f_(kids).keyed("name"), f_(l))
VF_D(rt::key2, f_(a), f_(b))
VF_D(rt::cell, f_(key), f_(l), f_(sub).keyed("id"))
VF_D(rt::cells, f_(cs).keyed("key"), f_(plain), f_(ot))
template <> struct shape<rt::keyed> { static void fix(rt::keyed& v, rng& r) { rt::dedupe(v.items, &rt::item::id); rt::dedupe(v.roitems, &rt::item::id); rt::dedupe(v.subitems, &rt::item::id); rt::dedupe(v.ints, &rt::locked::key); rt::dedupe(v.li, &rt::item::id); if (v.items.size() > 7) v.items.resize(7); v.total = r.coin() && !v.items.empty() ? 5 : 6; } };
template <> struct shape<rt::tree> { static void fix(rt::tree& v, rng& r) { rt::plain_key(v.name, r); rt::dedupe(v.kids, &rt::tree::name); } };
template <> struct shape<rt::key2> { static void fix(rt::key2& v, rng& r) { rt::plain_key(v.a, r); if (r.chance(3, 4)) v.b = (int)r.below(3); } };
template <> struct shape<rt::cell> { static void fix(rt::cell& v, rng&) { rt::dedupe(v.sub, &rt::item::id); } };
template <> struct shape<rt::cells> { static void fix(rt::cells& v, rng&) { rt::dedupe(v.cs, &rt::cell::key); } };
}
namespace rm {
template <> struct RV<rt::keyed> { static std::string check(const rt::keyed& v) { return rt::bad_keyed(v); } };
template <> struct hooks<rt::keyed> { static constexpr bool root_logged = true; };
}
template <class C> void rt::keyed::validate_resource(C&) const { if (rm::root_log()) rm::root_log()->push_back(jm::show(jm::enc(*this, false))); user_validate(bad_keyed(*this)); }

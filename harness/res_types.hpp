// Resource types: every mix of read-only fields, read-only subtrees, child keys, maps, sequences, optionals and validators.
#pragma once
#include "resmodel.hpp"
namespace rt {
namespace ra = kl::resources::attributes;
namespace sa = kl::serialization::attributes;
using rm::user_validate;
struct leaf { int i = 0; std::string s; std::optional<int> o; template <class C> void validate_resource(C&) const; };
KL_REFLECT_STRUCT(leaf, i, s, o)
inline std::string bad_leaf(const leaf& l) { return l.i == 13 || l.s == "bad" ? "bad leaf" : ""; }
template <class C> void leaf::validate_resource(C&) const { user_validate(bad_leaf(*this)); }
inline std::string bad_leaves(const std::vector<leaf>& v) { return v.size() > 6 ? "too many leaves" : ""; }
template <class C> void validate_resource(const std::vector<leaf>& v, C&) { user_validate(bad_leaves(v)); } // by ADL
// copies throw on demand; moves never do, but do not promise so
struct frag { int v = 0; frag() = default; frag(const frag& o) : v(o.v) { tick(); } frag& operator=(const frag& o) { tick(); v = o.v; return *this; } frag(frag&& o) noexcept(false) : v(o.v) { gone(o); } frag& operator=(frag&& o) noexcept(false) { if (this != &o) { int x = o.v; gone(o); v = x; } return *this; } static void gone(frag& o) { o.v = -31337; if (rm::hit(rm::mfault())) throw rm::user_fault{}; } static void tick() { if (rm::hit(rm::cfault())) throw rm::user_fault{}; } };
KL_REFLECT_STRUCT(frag, v)
struct moody { int v = 0; }; // deserializing throws something else on demand
struct item { std::string alt; std::string id; int n = 0; leaf l; std::vector<int> nums; std::map<std::string, int> tags; };
KL_REFLECT_STRUCT(item, alt, id, n, (l, sa::rename("leaf")), nums, tags)
struct locked { int key = 0; int rank = 0; std::string label; std::optional<leaf> ol; leaf ro; };
KL_REFLECT_STRUCT(locked, (key, sa::rename("k")), rank, label, (ol, ra::subtree_read_only), (ro, ra::read_only))
inline bool resource_key_matches(const locked&, int key, std::string_view seg) { return std::to_string(key) == seg; }
struct key2 { std::string a; int b = 0; bool operator==(const key2& o) const { return a == o.a && b == o.b; } };
template <class V, class P> void dedupe(V& v, P p) { for (auto i = v.begin(); i != v.end();) { bool dup = false; for (auto j = v.begin(); j != i; ++j) dup |= (*j).*p == (*i).*p; if (dup) i = v.erase(i); else ++i; } }
inline void plain_key(std::string& s, vf::rng& r) { static const char* k[] = {"a", "b", "c", "d e", "0", "1", "k%1", "x.y", ".."}; if (r.chance(9, 10)) s = r.pick(k); }
}
namespace kl::serialization {
template <> struct serializer<rt::moody>
{
    template <class C> static auto serialize(const rt::moody& t, C& ctx) { return serialization::serialize(t.v, ctx); }
    template <class C> static void dump(const rt::moody& t, C& ctx) { serialization::dump(t.v, ctx); }
    template <class V, class C> static void deserialize(rt::moody& t, const V& v, C& ctx) { if (rm::hit(rm::dfault())) throw rm::user_fault{}; t.v = serialization::deserialize<int>(v, ctx); }
    template <class V, class C> static void patch(rt::moody& t, const V& v, C& ctx) { deserialize(t, v, ctx); }
};
}
namespace jm {
template <> struct custom<rt::moody>
{
    static rt::moody gen(rng& r, int) { return {(int)r.range(-99, 99)}; }
    static J enc(const rt::moody& v, bool) { return J::integer(v.v); }
    static void dec(rt::moody& v, const J& j) { int x; jm::dec(x, j); v.v = x; }
    static void patch(rt::moody& v, const J& j) { dec(v, j); }
    static bool eq(const rt::moody& a, const rt::moody& b, bool) { return a.v == b.v; }
    static void words(std::set<std::string>&) {}
};
VF_D(rt::leaf, f_(i), f_(s), f_(o))
VF_D(rt::frag, f_(v))
VF_D(rt::item, f_(alt), f_(id), f_(n), f_(l).ren("leaf"), f_(nums), f_(tags))
VF_D(rt::locked, f_(key).ren("k"), f_(rank), f_(label), f_(ol).subro(), f_(ro).rdonly())
template <> struct shape<rt::leaf> { static void fix(rt::leaf& v, rng& r) { if (v.i == 13) v.i = 12; if (v.s == "bad") v.s = "good"; if (r.coin()) v.s.resize(std::min<std::size_t>(v.s.size(), 5)); } };
template <> struct shape<rt::item> { static void fix(rt::item& v, rng& r) { rt::plain_key(v.id, r); if (r.coin()) v.alt = v.id; else rt::plain_key(v.alt, r); } }; // another field may hold the key's value
template <> struct shape<rt::locked> { static void fix(rt::locked& v, rng& r) { if (r.chance(9, 10)) v.key = (int)r.range(-3, 12); if (r.coin()) v.rank = v.key; } };
}
namespace rm {
template <> struct RV<rt::leaf> { static std::string check(const rt::leaf& v) { return rt::bad_leaf(v); } };
template <> struct RV<std::vector<rt::leaf>> { static std::string check(const std::vector<rt::leaf>& v) { return rt::bad_leaves(v); } };
}

// Reflected types with field attributes, and the same declarations again as tables for the model.
#pragma once
#include "json_types.hpp"
namespace jt {
namespace attr = kl::serialization::attributes;
struct renamed { int id = 0; int api_token = 0; std::optional<std::string> note; };
KL_REFLECT_STRUCT(renamed, id, (api_token, attr::rename("api-token"), attr::aliases("api_token", "token", "t")), (note, attr::aliases("n1", "n2", "n3", "n4", "n5", "n6", "n7", "n8"), attr::rename("no te")))
struct swapped { int a = 0; std::string b; };
KL_REFLECT_STRUCT(swapped, (a, attr::rename("b")), (b, attr::rename("a")))
struct skips { int keep = 0; int noser = 0; int nodes = 7; std::string both; int manual = 3; std::optional<int> tail; };
KL_REFLECT_STRUCT(skips, keep, (noser, attr::skip_serialization), (nodes, attr::skip_deserialization), (both, attr::skip), (manual, attr::skip_serialization, attr::skip_deserialization), tail)
struct nulls { std::optional<int> ctx; std::optional<std::string> skipped; std::optional<int> emitted; std::optional<inner> both; std::optional<int> ren; };
KL_REFLECT_STRUCT(nulls, ctx, (skipped, attr::skip_if_null), (emitted, attr::emit_null), (both, attr::emit_null, attr::skip_if_null), (ren, attr::rename("r-n"), attr::emit_null))
struct empties { std::string s; std::string se; std::vector<int> v; std::vector<int> ve; std::map<std::string, int> me; std::optional<int> o; };
KL_REFLECT_STRUCT(empties, s, (se, attr::skip_if_empty), v, (ve, attr::skip_if_empty, attr::allow_missing), (me, attr::skip_if_empty, attr::allow_missing), o)
struct defaults { int id = 0; int count = 1; std::string label; std::vector<int> vec; std::optional<int> opt; color col{}; int ren = 0; int al = 0; int two = 0; int am = 5; int amd = 6; };
KL_REFLECT_STRUCT(defaults, id, (count, attr::default_value(42)), (label, attr::default_value("dflt")), (vec, attr::default_value(std::vector<int>{1, 2})), (opt, attr::default_value(9)), (col, attr::default_value(color::blue)),
                  (ren, attr::rename("r"), attr::default_value(-1)), (al, attr::aliases("legacy"), attr::default_value(77)), (two, attr::default_value(1), attr::default_value(2)), (am, attr::allow_missing), (amd, attr::allow_missing, attr::default_value(13)))
struct missing { int a = 1; std::string b = "kept"; std::optional<int> c; inner d; std::vector<int> e; };
KL_REFLECT_STRUCT(missing, (a, attr::allow_missing), (b, attr::allow_missing, attr::aliases("bb")), (c, attr::allow_missing), (d, attr::allow_missing), (e, attr::allow_missing, attr::rename("ee")))
inline void even(int v) { if (v % 2) throw kl::serialization::deserialize_error{"value must be even"}; }
struct valid { int port = 1; double ratio = 0; std::uint8_t low = 0; int nonneg = 0; std::int64_t atmost = 0; std::string name = "x"; int ev = 0; std::optional<int> small; int dv = 200; std::vector<int> few; };
KL_REFLECT_STRUCT(valid, (port, attr::range(1, 65535)), (ratio, attr::range(0.0, 1.0)), (low, attr::range(0, 127)), (nonneg, attr::greater_equal(0)), (atmost, attr::less_equal(10)),
                  (name, attr::validate([](const std::string& s) { if (s.empty()) throw kl::serialization::deserialize_error{"name must not be empty"}; })),
                  (ev, attr::validate(even), attr::range(-100, 100)), (small, attr::validate([](const std::optional<int>& o) { if (o && *o > 9) throw kl::serialization::deserialize_error{"too big"}; })),
                  (dv, attr::default_value(200), attr::range(0, 100)), (few, attr::validate([](const std::vector<int>& v) { if (v.size() > 3) throw kl::serialization::deserialize_error{"too many"}; })))
struct flat_in { int x = 0; std::optional<int> y; std::string z; };
KL_REFLECT_STRUCT(flat_in, x, (y, attr::rename("why"), attr::emit_null), (z, attr::default_value("zz"), attr::aliases("zed")))
struct flat_out { int a = 0; flat_in in; int c = 0; };
KL_REFLECT_STRUCT(flat_out, a, (in, attr::flatten), (c, attr::aliases("cc")))
struct flat_deep { std::string top; flat_out mid; base last; };
KL_REFLECT_STRUCT(flat_deep, top, (mid, attr::flatten), (last, attr::flatten))
struct flat_base : base { flat_in in; std::vector<flat_out> outs; std::optional<flat_out> maybe; };
KL_REFLECT_STRUCT_DERIVED(flat_base, base, (in, attr::flatten), outs, maybe)
struct extra_int { int a = 0; std::map<std::string, int> extra; int z = 0; };
KL_REFLECT_STRUCT(extra_int, a, (extra, attr::extra_fields), (z, attr::rename("zed"), attr::aliases("k1")))
struct extra_opt { std::map<std::string, std::optional<std::string>> rest; std::optional<int> a; int hidden = 4; };
KL_REFLECT_STRUCT(extra_opt, (rest, attr::extra_fields), a, (hidden, attr::skip, attr::rename("id")))
struct extra_obj { int id = 0; std::map<std::string, allopt> more; };
KL_REFLECT_STRUCT(extra_obj, id, (more, attr::extra_fields))
struct extra_nest { std::unordered_map<std::string, std::vector<int>> more; flat_in in; std::map<std::string, extra_int> subs; };
KL_REFLECT_STRUCT(extra_nest, (more, attr::extra_fields, attr::skip_if_empty), (in, attr::flatten), subs)
struct extra_flat { int p = 0; extra_int in; int q = 0; };
KL_REFLECT_STRUCT(extra_flat, p, (in, attr::flatten), (q, attr::aliases("b")))
struct attr_base { int id = 0; int opt_in = 2; };
KL_REFLECT_STRUCT(attr_base, (id, attr::rename("ID"), attr::aliases("id")), (opt_in, attr::allow_missing))
struct attr_derived : attr_base { color c = color::red; std::vector<valid> vs; std::optional<defaults> ds; };
KL_REFLECT_STRUCT_DERIVED(attr_derived, attr_base, (c, attr::default_value(color::alpha), attr::aliases("colour", "col")), (vs, attr::skip_if_empty, attr::default_value(std::vector<valid>{})), (ds, attr::skip_if_null))
struct combo { missing m; std::array<missing, 2> ms; std::optional<renamed> r; std::map<std::string, skips> sk; nulls n; std::pair<int, valid> pv; };
KL_REFLECT_STRUCT(combo, (m, attr::rename("em")), (ms, attr::allow_missing), r, (sk, attr::default_value(std::map<std::string, skips>{})), (n, attr::aliases("nulls")), (pv, attr::allow_missing))
struct ranged { std::int8_t a = 0; std::uint64_t b = 0; float c = 0; std::int64_t d = 0; };
KL_REFLECT_STRUCT(ranged, (a, attr::range(-5, 5)), (b, attr::range(std::uint64_t{10}, std::uint64_t{20})), (c, attr::greater_equal(-1.5)), (d, attr::range(-10, 10), attr::allow_missing))
// one name written from one field and read into another
struct vers { int now = 0; int old = 0; std::optional<int> tail; };
KL_REFLECT_STRUCT(vers, (now, attr::rename("v"), attr::skip_deserialization), (old, attr::rename("v"), attr::skip_serialization), tail)
// optionals whose validators do not take "empty" (missing, null) for an answer
struct required { std::optional<int> must; std::optional<int> least; std::optional<std::string> name; std::optional<int> kept; };
KL_REFLECT_STRUCT(required, (must, attr::validate([](const std::optional<int>& o) { if (!o) throw kl::serialization::deserialize_error{"must be there"}; })), (least, attr::greater_equal(5), attr::aliases("l")), (name, attr::skip_if_null, attr::validate([](const auto& o) { if (o && o->empty()) throw kl::serialization::deserialize_error{"empty name"}; })),
                  (kept, attr::allow_missing, attr::validate([](const std::optional<int>& o) { if (!o) throw kl::serialization::deserialize_error{"null is no value"}; })))
// declared by hand, fields reached through accessors
struct viaacc { int a = 0; std::string b; std::optional<inner> c; std::vector<int> d; };
template <typename Factory, typename Visitor> constexpr void reflect_struct_fields(Factory&& factory, Visitor&& vis, kl::ctti::record_class<viaacc>)
{
    vis(KL_ACCESSOR_FIELD_NAMED("A", object.a)); vis(KL_ACCESSOR_FIELD(b)); vis(KL_ACCESSOR_FIELD_NAMED("see", object.c));
    vis(factory.accessor("dee", [](auto& o) -> decltype(auto) { return (o.d); }, [] { return attr::aliases("d", "D"); }, [] { return attr::default_value(std::vector<int>{4}); }, [] { return attr::skip_if_empty; }));
}
constexpr std::size_t reflect_num_fields(kl::ctti::record_class<viaacc>) noexcept { return 4; }
// validators of every callable kind
struct limit { int v = 0; void check() const { if (v > 9) throw kl::serialization::deserialize_error{"limit above nine"}; } };
KL_REFLECT_STRUCT(limit, v)
struct below { int top; void operator()(int v) const { if (v >= top) throw kl::serialization::deserialize_error{"not below the top"}; } };
struct callables { limit m; int f = 0; limit flat; std::vector<limit> list; };
KL_REFLECT_STRUCT(callables, (m, attr::validate(&limit::check)), (f, attr::validate(below{5})), (flat, attr::flatten, attr::validate([](const limit& l) { if (l.v < 0) throw kl::serialization::deserialize_error{"flattened is negative"}; })), (list, attr::validate([](const auto& l) { if (l.size() == 2) throw kl::serialization::deserialize_error{"two is company"}; })))
struct extra_less { std::string a; std::map<std::string, std::vector<limit>, std::less<>> rest; };
KL_REFLECT_STRUCT(extra_less, a, (rest, attr::extra_fields, attr::validate([](const auto& m) { if (m.count("zz")) throw kl::serialization::deserialize_error{"zz is reserved"}; })))
}
namespace jm {
VF_D(jt::vers, f_(now).ren("v").node(), f_(old).ren("v").noser(), f_(tail))
VF_D(jt::required, f_(must).check([](const std::optional<int>& o) { return o ? "" : "must be there"; }), f_(least).alias({"l"}).check([](const std::optional<int>& o) { return o && *o >= 5 ? "" : "value is less than"; }), f_(name).ifnull().check([](const std::optional<std::string>& o) { return o && o->empty() ? "empty name" : ""; }), f_(kept).missing().check([](const std::optional<int>& o) { return o ? "" : "null is no value"; }))
template <> struct shape<jt::required> { static void fix(jt::required& v, rng& r) { if (r.chance(9, 10) && !v.must) v.must = 1; if (r.chance(9, 10)) v.least = (int)r.range(5, 9); if (v.name && r.chance(9, 10)) *v.name += "n"; if (r.chance(9, 10)) v.kept = 3; } };
VF_D(jt::viaacc, F<S>("A", &S::a), f_(b), F<S>("see", &S::c), F<S>("dee", &S::d).alias({"d", "D"}).dflt({4}).ifempty())
VF_D(jt::limit, f_(v))
VF_D(jt::callables, f_(m).check([](const jt::limit& l) { return l.v > 9 ? "limit above nine" : ""; }), f_(f).check([](const int& v) { return v >= 5 ? "not below the top" : ""; }), f_(flat).flatten().check([](const jt::limit& l) { return l.v < 0 ? "flattened is negative" : ""; }), f_(list).check([](const std::vector<jt::limit>& l) { return l.size() == 2 ? "two is company" : ""; }))
VF_D(jt::extra_less, f_(a), f_(rest).extras().check([](const std::map<std::string, std::vector<jt::limit>, std::less<>>& m) { return m.count("zz") ? "zz is reserved" : ""; }))
template <> struct shape<jt::callables> { static void fix(jt::callables& v, rng& r) { if (r.chance(9, 10)) { v.m.v = (int)r.range(-5, 9); v.f = (int)r.range(-5, 4); v.flat.v = (int)r.range(0, 20); } if (v.list.size() == 2 && r.chance(9, 10)) v.list.resize(1); } };
VF_D(jt::renamed, f_(id), f_(api_token).ren("api-token").alias({"api_token", "token", "t"}), f_(note).ren("no te").alias({"n1", "n2", "n3", "n4", "n5", "n6", "n7", "n8"}))
VF_D(jt::swapped, f_(a).ren("b"), f_(b).ren("a"))
VF_D(jt::skips, f_(keep), f_(noser).noser(), f_(nodes).node(), f_(both).noser().node(), f_(manual).noser().node(), f_(tail))
VF_D(jt::nulls, f_(ctx), f_(skipped).ifnull(), f_(emitted).emit(), f_(both).emit(), f_(ren).ren("r-n").emit())
VF_D(jt::empties, f_(s), f_(se).ifempty(), f_(v), f_(ve).ifempty().missing(), f_(me).ifempty().missing(), f_(o))
VF_D(jt::defaults, f_(id), f_(count).dflt(42), f_(label).dflt("dflt"), f_(vec).dflt({1, 2}), f_(opt).dflt(9), f_(col).dflt(jt::color::blue), f_(ren).ren("r").dflt(-1), f_(al).alias({"legacy"}).dflt(77), f_(two).dflt(1), f_(am).missing(), f_(amd).missing().dflt(13))
VF_D(jt::missing, f_(a).missing(), f_(b).missing().alias({"bb"}), f_(c).missing(), f_(d).missing(), f_(e).ren("ee").missing())
VF_D(jt::valid, f_(port).range(1, 65535), f_(ratio).range(0, 1), f_(low).range(0, 127), f_(nonneg).check([](const int& x) { return x < 0 ? "value is less than allowed limit" : ""; }), f_(atmost).check([](const std::int64_t& x) { return x > 10 ? "value is greater than allowed limit" : ""; }),
     f_(name).check([](const std::string& s) { return s.empty() ? "name must not be empty" : ""; }), f_(ev).check([](const int& x) { return x % 2 ? "value must be even" : ""; }).range(-100, 100), f_(small).check([](const std::optional<int>& o) { return o && *o > 9 ? "too big" : ""; }),
     f_(dv).dflt(200).range(0, 100), f_(few).check([](const std::vector<int>& v) { return v.size() > 3 ? "too many" : ""; }))
VF_D(jt::flat_in, f_(x), f_(y).ren("why").emit(), f_(z).dflt("zz").alias({"zed"}))
VF_D(jt::flat_out, f_(a), f_(in).flatten(), f_(c).alias({"cc"}))
VF_D(jt::flat_deep, f_(top), f_(mid).flatten(), f_(last).flatten())
VF_D(jt::flat_base, f_(b1), f_(b2), f_(in).flatten(), f_(outs), f_(maybe))
VF_D(jt::extra_int, f_(a), f_(extra).extras(), f_(z).ren("zed").alias({"k1"}))
VF_D(jt::extra_opt, f_(rest).extras(), f_(a), f_(hidden).ren("id").noser().node())
VF_D(jt::extra_obj, f_(id), f_(more).extras())
VF_D(jt::extra_nest, f_(more).extras().ifempty(), f_(in).flatten(), f_(subs))
VF_D(jt::extra_flat, f_(p), f_(in).flatten(), f_(q).alias({"b"}))
VF_D(jt::attr_base, f_(id).ren("ID").alias({"id"}), f_(opt_in).missing())
VF_D(jt::attr_derived, f_(id).ren("ID").alias({"id"}), f_(opt_in).missing(), f_(c).dflt(jt::color::alpha).alias({"colour", "col"}), f_(vs).ifempty().dflt({}), f_(ds).ifnull())
VF_D(jt::combo, f_(m).ren("em"), f_(ms).missing(), f_(r), f_(sk).dflt({}), f_(n).alias({"nulls"}), f_(pv).missing())
VF_D(jt::ranged, f_(a).range(-5, 5), f_(b).range(10, 20), f_(c).check([](const float& x) { return x < -1.5 ? "value is less than" : ""; }), f_(d).range(-10, 10).missing())
// values mostly within the validators' limits, so that many documents are acceptable
template <> struct shape<jt::valid> { static void fix(jt::valid& v, rng& r) { auto in = [&](auto& x, int lo, int hi) { if (r.chance(14, 15)) x = (std::decay_t<decltype(x)>)r.range(lo, hi); }; in(v.port, 1, 65535); in(v.low, 0, 127); in(v.nonneg, 0, 5); in(v.atmost, -3, 10); if (r.chance(14, 15)) v.ratio = (double)r.range(0, 8) / 8; if (v.name.empty() && r.chance(14, 15)) v.name = "nm"; if (r.chance(14, 15)) v.ev = 2 * (int)r.range(-50, 50); if (v.small && r.chance(14, 15)) v.small = (int)r.range(-5, 9); in(v.dv, 0, 100); if (r.chance(14, 15)) v.few.resize(std::min<std::size_t>(v.few.size(), 3)); } };
template <> struct shape<jt::ranged> { static void fix(jt::ranged& v, rng& r) { if (r.chance(9, 10)) v.a = (std::int8_t)r.range(-5, 5); if (r.chance(9, 10)) v.b = (std::uint64_t)r.range(10, 20); if (r.chance(9, 10)) v.c = (float)r.range(-1, 3); if (r.chance(9, 10)) v.d = r.range(-10, 10); } };
}

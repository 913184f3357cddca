// User-defined serialization: serializer<T> specialization, backend ADL overloads, builders and extractors,
// and the string-like and view types that exist only on one side.
#include "json_types.hpp"
namespace jc {
struct temp { double c = 0; };                                             // serializer<T>
struct rgb { std::uint8_t r = 0, g = 0; std::optional<int> b; };            // ADL, array
struct acct { std::string user; std::vector<int> ids; std::optional<bool> on; }; // ADL, object
template <class Ctx> void dump_adl(kl::json::stream_tag, const rgb& v, Ctx& ctx) { ctx.writer().StartArray(); kl::json::dump(v.r, ctx); kl::json::dump(v.g, ctx); kl::json::dump(v.b, ctx); ctx.writer().EndArray(); }
template <class Ctx> rapidjson::Value serialize_adl(kl::json::tree_tag, const rgb& v, Ctx& ctx) { return kl::json::to_array(ctx).add(v.r).add(kl::json::serialize(v.g, ctx)).add(v.b); }
template <class Ctx> void deserialize_adl(kl::json::tree_tag, rgb& v, const rapidjson::Value& x, Ctx& ctx) { kl::json::from_array(x, ctx).extract(v.r).extract(v.b, 2).extract(v.g, 1); }
template <class Ctx> void patch_adl(kl::json::tree_tag, rgb& v, const rapidjson::Value& x, Ctx& ctx) { kl::json::deserialize(v, x, ctx); }
template <class Ctx> void dump_adl(kl::json::stream_tag, const acct& v, Ctx& ctx) { ctx.writer().StartObject(); ctx.writer().Key("user"); kl::json::dump(v.user, ctx); ctx.writer().Key("ids"); kl::json::dump(v.ids, ctx); ctx.writer().Key("on"); kl::json::dump(v.on, ctx); ctx.writer().EndObject(); }
template <class Ctx> rapidjson::Value serialize_adl(kl::json::tree_tag, const acct& v, Ctx& ctx) { std::string dyn = "idsonlongenough"; return kl::json::to_object(ctx).add("user", v.user).add_dynamic_name(std::string_view(dyn).substr(0, 3), v.ids).add_dynamic_name(std::string_view(dyn).substr(3, 2), kl::json::serialize(v.on, ctx)); }
template <class Ctx> void deserialize_adl(kl::json::tree_tag, acct& v, const rapidjson::Value& x, Ctx& ctx) { kl::json::from_object(x, ctx).extract("user", v.user).extract("ids", v.ids).extract("on", v.on); }
template <class Ctx> void patch_adl(kl::json::tree_tag, acct& v, const rapidjson::Value& x, Ctx& ctx) { kl::json::deserialize(v, x, ctx); }
}
namespace kl::serialization {
template <> struct serializer<jc::temp>
{
    template <class C> static auto serialize(const jc::temp& t, C& ctx) { return serialization::serialize(t.c, ctx); }
    template <class C> static void dump(const jc::temp& t, C& ctx) { serialization::dump(t.c, ctx); }
    template <class V, class C> static void deserialize(jc::temp& t, const V& v, C& ctx) { auto d = serialization::deserialize<double>(v, ctx); if (d < -273) throw deserialize_error{"below absolute zero"}; t.c = d; }
    template <class V, class C> static void patch(jc::temp& t, const V& v, C& ctx) { deserialize(t, v, ctx); }
};
}
namespace jc {
struct holder { temp t; std::optional<temp> ot; std::vector<rgb> rs; std::map<std::string, acct> as; std::pair<rgb, temp> p; acct a; };
KL_REFLECT_STRUCT(holder, t, ot, (rs, kl::serialization::attributes::allow_missing), as, p, (a, kl::serialization::attributes::rename("acc")))
}
namespace jm {
template <> struct custom<jc::temp>
{
    static jc::temp gen(rng& r, int) { return {r.chance(1, 10) ? std::fabs(gen_double(r)) : (double)r.range(-200, 1000) / 4}; }
    static J enc(const jc::temp& v, bool) { return J::real(v.c); }
    static void dec(jc::temp& v, const J& j) { double d; jm::dec(d, j); if (d < -273) reject("below absolute zero"); v.c = d; }
    static void patch(jc::temp& v, const J& j) { dec(v, j); }
    static bool eq(const jc::temp& a, const jc::temp& b, bool x) { return jm::eq(a.c, b.c, x); }
    static void words(std::set<std::string>&) {}
};
template <> struct custom<jc::rgb>
{
    static jc::rgb gen(rng& r, int) { jc::rgb v; v.r = (std::uint8_t)r.next(); v.g = (std::uint8_t)r.next(); if (r.coin()) v.b = (int)r.next(); return v; }
    static J enc(const jc::rgb& v, bool s) { J j = J::arr(); j.a = {jm::enc(v.r, s), jm::enc(v.g, s), jm::enc(v.b, s)}; return j; }
    static void dec(jc::rgb& v, const J& j) { static const J null; if (j.k != J::Arr) reject(); auto at = [&](std::size_t i) -> const J& { return i < j.a.size() ? j.a[i] : null; }; in_ctx("0", [&] { jm::dec(v.r, at(0)); }); in_ctx("2", [&] { jm::dec(v.b, at(2)); }); in_ctx("1", [&] { jm::dec(v.g, at(1)); }); }
    static void patch(jc::rgb& v, const J& j) { dec(v, j); }
    static bool eq(const jc::rgb& a, const jc::rgb& b, bool) { return a.r == b.r && a.g == b.g && a.b == b.b; }
    static void words(std::set<std::string>&) {}
};
template <> struct custom<jc::acct>
{
    static jc::acct gen(rng& r, int d) { return {gen_string(r), jm::gen<std::vector<int>>(r, d + 2), jm::gen<std::optional<bool>>(r, d)}; }
    static J enc(const jc::acct& v, bool s) { J j = J::obj(); j.o = {{"user", jm::enc(v.user, s)}, {"ids", jm::enc(v.ids, s)}, {"on", jm::enc(v.on, s)}}; return j; }
    static void dec(jc::acct& v, const J& j) { static const J null; if (j.k != J::Obj) reject(); auto at = [&](const char* k) -> const J& { auto* p = j.find(k); return p ? *p : null; }; in_ctx("user", [&] { jm::dec(v.user, at("user")); }); in_ctx("ids", [&] { jm::dec(v.ids, at("ids")); }); in_ctx("on", [&] { jm::dec(v.on, at("on")); }); }
    static void patch(jc::acct& v, const J& j) { dec(v, j); }
    static bool eq(const jc::acct& a, const jc::acct& b, bool) { return a.user == b.user && a.ids == b.ids && a.on == b.on; }
    static void words(std::set<std::string>& w) { w.insert({"user", "ids", "on"}); }
};
VF_D(jc::holder, f_(t), f_(ot), f_(rs).missing(), f_(as), f_(p), f_(a).ren("acc"))
}
VF_PLAIN(jc::temp)
VF_PLAIN(jc::rgb)
VF_PLAIN(jc::acct)
VF_PLAIN(jc::holder)
VF_PLAIN(std::vector<jc::acct>)
VF_PLAIN(std::map<std::string, std::optional<jc::rgb>>)

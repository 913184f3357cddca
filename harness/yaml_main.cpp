// User-defined serialization with the YAML back end, views, hostile texts; the main program of the YAML monitor.
#include "json_types.hpp"
namespace jc {
struct temp { double c = 0; };                                             // serializer<T>
struct rgb { std::uint8_t r = 0, g = 0; std::optional<int> b; };            // ADL, sequence
struct acct { std::string user; std::vector<int> ids; std::optional<bool> on; }; // ADL, map
template <class Ctx> void dump_adl(kl::yaml::stream_tag, const rgb& v, Ctx& ctx) { ctx.emitter() << YAML::BeginSeq; kl::yaml::dump(v.r, ctx); kl::yaml::dump(v.g, ctx); kl::yaml::dump(v.b, ctx); ctx.emitter() << YAML::EndSeq; }
template <class Ctx> YAML::Node serialize_adl(kl::yaml::tree_tag, const rgb& v, Ctx& ctx) { return kl::yaml::to_sequence(ctx).add(v.r).add(kl::yaml::serialize(v.g, ctx)).add(v.b); }
template <class Ctx> void deserialize_adl(kl::yaml::tree_tag, rgb& v, const YAML::Node& x, Ctx& ctx) { kl::yaml::from_sequence(x, ctx).extract(v.r).extract(v.b, 2).extract(v.g, 1); }
template <class Ctx> void patch_adl(kl::yaml::tree_tag, rgb& v, const YAML::Node& x, Ctx& ctx) { kl::yaml::deserialize(v, x, ctx); }
template <class Ctx> void dump_adl(kl::yaml::stream_tag, const acct& v, Ctx& ctx) { auto& e = ctx.emitter(); e << YAML::BeginMap << YAML::Key << "user" << YAML::Value; kl::yaml::dump(v.user, ctx); e << YAML::Key << "ids" << YAML::Value; kl::yaml::dump(v.ids, ctx); e << YAML::Key << "on" << YAML::Value; kl::yaml::dump(v.on, ctx); e << YAML::EndMap; }
template <class Ctx> YAML::Node serialize_adl(kl::yaml::tree_tag, const acct& v, Ctx& ctx) { return kl::yaml::to_map(ctx).add("user", v.user).add(std::string("ids"), kl::yaml::serialize(v.ids, ctx)).add("on", v.on).done(); }
template <class Ctx> void deserialize_adl(kl::yaml::tree_tag, acct& v, const YAML::Node& x, Ctx& ctx) { kl::yaml::from_map(x, ctx).extract("user", v.user).extract("ids", v.ids).extract(std::string("on"), v.on); }
template <class Ctx> void patch_adl(kl::yaml::tree_tag, acct& v, const YAML::Node& x, Ctx& ctx) { kl::yaml::deserialize(v, x, ctx); }
}
namespace kl::serialization {
template <> struct serializer<jc::temp>
{
    template <class C> static auto serialize(const jc::temp& t, C& ctx) { return serialization::serialize(t.c, ctx); }
    template <class C> static void dump(const jc::temp& t, C& ctx) { serialization::dump(t.c, ctx); }
    template <class V, class C> static void deserialize(jc::temp& t, const V& v, C& ctx) { auto d = serialization::deserialize<double>(v, ctx); if (d < -273) throw deserialize_error{"below absolute zero"}; t.c = d; }
    template <class V, class C> static void patch(jc::temp& t, const V& v, C& ctx) { deserialize(t, v, ctx); }
};
}
namespace jc {
struct holder { temp t; std::optional<temp> ot; std::vector<rgb> rs; std::map<std::string, acct> as; std::pair<rgb, temp> p; acct a; };
KL_REFLECT_STRUCT(holder, t, ot, (rs, kl::serialization::attributes::allow_missing), as, p, (a, kl::serialization::attributes::rename("acc")))
}
namespace jm {
template <> struct custom<jc::temp>
{
    static jc::temp gen(rng& r, int) { return {r.chance(1, 10) ? std::fabs(gen_double(r)) : (double)r.range(-200, 1000) / 4}; }
    static J enc(const jc::temp& v, bool) { return J::real(v.c); }
    static void dec(jc::temp& v, const J& j) { double d; jm::dec(d, j); if (d < -273) reject("below absolute zero"); v.c = d; }
    static void patch(jc::temp& v, const J& j) { dec(v, j); }
    static bool eq(const jc::temp& a, const jc::temp& b, bool x) { return jm::eq(a.c, b.c, x); }
    static void words(std::set<std::string>&) {}
};
template <> struct custom<jc::rgb>
{
    static jc::rgb gen(rng& r, int) { jc::rgb v; v.r = (std::uint8_t)r.next(); v.g = (std::uint8_t)r.next(); if (r.coin()) v.b = (int)r.next(); return v; }
    static J enc(const jc::rgb& v, bool s) { J j = J::arr(); j.a = {jm::enc(v.r, s), jm::enc(v.g, s), jm::enc(v.b, s)}; return j; }
    static void dec(jc::rgb& v, const J& j) { static const J null; if (j.k != J::Arr) reject(); auto at = [&](std::size_t i) -> const J& { return i < j.a.size() ? j.a[i] : null; }; in_ctx("0", [&] { jm::dec(v.r, at(0)); }); in_ctx("2", [&] { jm::dec(v.b, at(2)); }); in_ctx("1", [&] { jm::dec(v.g, at(1)); }); }
    static void patch(jc::rgb& v, const J& j) { dec(v, j); }
    static bool eq(const jc::rgb& a, const jc::rgb& b, bool) { return a.r == b.r && a.g == b.g && a.b == b.b; }
    static void words(std::set<std::string>&) {}
};
template <> struct custom<jc::acct>
{
    static jc::acct gen(rng& r, int d) { return {gen_string(r), jm::gen<std::vector<int>>(r, d + 2), jm::gen<std::optional<bool>>(r, d)}; }
    static J enc(const jc::acct& v, bool s) { J j = J::obj(); j.o = {{"user", jm::enc(v.user, s)}, {"ids", jm::enc(v.ids, s)}, {"on", jm::enc(v.on, s)}}; return j; }
    static void dec(jc::acct& v, const J& j) { static const J null; if (j.k != J::Obj) reject(); auto at = [&](const char* k) -> const J& { auto* p = j.find(k); return p ? *p : null; }; in_ctx("user", [&] { jm::dec(v.user, at("user")); }); in_ctx("ids", [&] { jm::dec(v.ids, at("ids")); }); in_ctx("on", [&] { jm::dec(v.on, at("on")); }); }
    static void patch(jc::acct& v, const J& j) { dec(v, j); }
    static bool eq(const jc::acct& a, const jc::acct& b, bool) { return a.user == b.user && a.ids == b.ids && a.on == b.on; }
    static void words(std::set<std::string>& w) { w.insert({"user", "ids", "on"}); }
};
VF_D(jc::holder, f_(t), f_(ot), f_(rs).missing(), f_(as), f_(p), f_(a).ren("acc"))
}
VF_PLAIN(jc::temp)
VF_PLAIN(jc::rgb)
VF_PLAIN(jc::acct)
VF_PLAIN(jc::holder)
VF_PLAIN(std::vector<jc::acct>)
VF_PLAIN(std::map<std::string, std::optional<jc::rgb>>)

namespace yv { struct viewful { kl::yaml::view a; int n = 0; std::vector<kl::yaml::view> vs; std::map<std::string, kl::yaml::view> m; }; KL_REFLECT_STRUCT(viewful, a, n, (vs, kl::serialization::attributes::allow_missing), (m, kl::serialization::attributes::allow_missing)) }
using namespace jm;
// views refer into the document they were read from; reading the same object again leaves earlier documents alone
static void view_case(rng& r)
{
    yv::viewful v; std::vector<YAML::Node> docs; std::vector<J> want; std::string log;
    for (int k = 2 + (int)r.below(3); k; --k)
    {
        J j = J::obj(), a = ytext(random_doc(r, words<jt::leaf>())); scrub(a); bool has = r.chance(2, 3); if (has) j.o.emplace_back("a", a); j.o.emplace_back("n", J::str(std::to_string(k)));
        J vs = J::arr(), m = J::obj(); for (auto n = r.below(4); n; --n) { J x = ytext(random_doc(r, {})); scrub(x); vs.a.push_back(x); m.o.emplace_back("k" + std::to_string(n), x); } if (r.coin()) { j.o.emplace_back("vs", vs); j.o.emplace_back("m", m); }
        YAML::Node d; d.reset(treeJ(j)); docs.push_back(d); want.push_back(j); log += " | " + show(j); bool patching = r.chance(1, 3); bool moved = r.chance(1, 4);
        if (patching) kl::yaml::patch(v, docs.back()); else kl::yaml::deserialize(v, docs.back());
        if (moved) { yv::viewful w; w = v; v = std::move(w); }
        if (!patching || has) { J got = nodeJ(v.a.value()), w = has ? a : J::null(); VF_CHECK(sameJ(got, w, true), "view-value", "got " << cut(show(got)) << log); VF_CHECK(v.a.value().IsDefined() && sameJ(nodeJ(*v.a), w, true) && sameJ(nodeJ(kl::yaml::serialize(v.a)), w, true), "view-value", log); }
        for (std::size_t i = 0; i < docs.size(); ++i) { J now = nodeJ(docs[i]); VF_CHECK(sameJ(now, want[i], true), "source-modified", "document " << i << " became " << cut(show(now)) << log); }
        std::optional<int> missing = 5; YAML::Node e(YAML::NodeType::Map); kl::yaml::deserialize(missing, kl::yaml::at(e, "none")); VF_CHECK(!missing, "null-value-modified", log);
    }
    { YAML::Node n(3), m; kl::yaml::view some{n}, none; const YAML::Node& ref = some; VF_CHECK(ref.is(n) && (*some).is(n) && some->is(n) && some && some->as<int>() == 3, "view", "operators refer elsewhere");
      using namespace kl::yaml; auto l = "{a: [1, x], b: ~}"_yaml; VF_CHECK(l.IsMap() && l.size() == 2 && l["a"][1].as<std::string>() == "x" && l["b"].IsNull(), "literal", "");
      bool threw = false; try { auto e = "[1,"_yaml; } catch (const kl::serialization::parse_error&) { threw = true; } VF_CHECK(threw, "literal", "malformed literal accepted"); }
    vf::count("ev.views"); vf::seen(log);
}
static void text_case(rng& r)
{
    static const char* bits[] = {"{", "}", "[", "]", ",", ": ", ":", "- ", "\n", "  ", "\"", "'", "#", "|", ">", "!", "%", "@", "`", "? ", "null", "~", "1", "a", "key", "b1: ", "kids: ", "\t", "---", "...", "\\", "red", "\xC3\xA9"};
    std::string s;
    if (r.chance(1, 3)) for (auto n = r.below(14); n; --n) s += r.pick(bits);
    else
    {
        J j = r.coin() ? random_doc(r, words<jt::leaf>()) : enc(gen<jt::leaf>(r, 1), r.coin()); scrub(j); jsonish(s, j, r);
        for (auto n = r.below(4); n; --n) switch (r.below(4)) { case 0: if (!s.empty()) s[r.below(s.size())] = (char)r.range(1, 126); break; case 1: if (!s.empty()) s.erase(r.below(s.size()), 1 + r.below(3)); break; case 2: s.insert(r.below(s.size() + 1), r.pick(bits)); break; default: s.resize(r.below(s.size() + 1)); }
    }
    for (auto& c : s) if (c == '*' || c == '&') c = '_'; // no cyclic documents
    if (r.chance(1, 10)) s = "{a: &x [1, {b: 2}], b1: *x, v: *x, kids: [*x]}";
    vf::seen(s); vf::sample(s);
    try
    {
        YAML::Node d = kl::yaml::parse(s.c_str()); J before = nodeJ(d); vf::count("ev.parsed");
        auto& reg = registry(); for (auto n = r.below(3) + 1; n; --n) r.pick(reg).feed(d);
        J after = nodeJ(d); VF_CHECK(sameJ(before, after, true), "source-modified", cut(s));
    }
    catch (const kl::serialization::parse_error& e) { vf::count("ev.parse_error"); VF_CHECK(std::strlen(e.what()) > 0, "empty-message", "parse_error without text"); }
}
static void one(rng& r, std::uint64_t idx)
{
    yaml_mode() = true;
    switch (r.below(12)) { case 0: view_case(r); return; case 1: text_case(r); return; default: break; }
    auto& reg = registry(); auto& te = reg[vf::mix(idx) % reg.size()]; te.go(r, te); vf::count(std::string("type.") + te.name);
}
int main(int c, char** v) { return vf::run(c, v, one); }

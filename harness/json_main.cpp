#include "json_types.hpp"
#include <algorithm>
#include <forward_list>
#include <set>
#include <unordered_set>
using namespace jm;
// ---- C10: bytes
static std::string gen_bytes(rng& r)
{
    static const char* bits[] = {"{", "}", "[", "]", ",", ":", "\"", "\\", "\\u", "\\ud83d", "\\ude00", "\\u0000", "null", "true", "false", "nul", "NaN", "Infinity", "-", "+", "0", "01", "1", "12", ".", "e", "E+", "1e400", "1e-400", "-0", "-0.0", "18446744073709551615", "18446744073709551616", "-9223372036854775809", " ", "\n", "\t", "/*c*/", "//c\n", "\xEF\xBB\xBF", "\xff", "\xC3", "\"a\"", "\"a\":", "'", "\x01", "1.7976931348623157e308", "0.1e", "9007199254740993"};
    auto soup = [&] { std::string s; for (auto n = r.below(14); n; --n) s += r.pick(bits); return s; };
    switch (r.below(6))
    {
    case 0: return soup();
    case 1: { std::string s; for (auto n = r.below(40); n; --n) s += (char)r.below(256); return s; }
    default: {
        static const std::vector<std::string> w{"i", "s", "b1", "c", "v", "m", "t", "kids", "tag", "last", "red"};
        J j = r.coin() ? random_doc(r, w) : enc(gen<jt::leaf>(r, 1), r.coin()); std::string s; write(s, j, &r);
        for (auto n = r.below(4); n; --n) switch (r.below(7))
        {
        case 0: if (!s.empty()) s[r.below(s.size())] = (char)r.below(256); break;
        case 1: if (!s.empty()) s.erase(r.below(s.size()), 1 + r.below(3)); break;
        case 2: s.insert(r.below(s.size() + 1), r.pick(bits)); break;
        case 3: s.resize(r.below(s.size() + 1)); break;
        case 4: s.insert(r.below(s.size() + 1), 1, '\0'); break;
        case 5: { auto d = r.below(60); s = std::string(d, '[') + s + std::string(r.chance(3, 4) ? d : r.below(60), ']'); break; }
        default: s += soup();
        }
        return s; }
    }
}
static void bytes_case(rng& r)
{
    std::string s = gen_bytes(r);
    std::unique_ptr<char[]> b(new char[s.size()]); if (!s.empty()) std::memcpy(b.get(), s.data(), s.size());
    parser p{s}; J want = p.document();
    vf::seen(s); vf::sample(s);
    if (p.max_depth > 150) return;
    try
    {
        rapidjson::Document doc = kl::json::parse(std::string_view(b.get(), s.size()));
        b.reset(); vf::count("ev.parsed");
        if (!p.murky)
        {
            VF_CHECK(p.ok, "accepted-malformed", cut(s));
            if (p.ok) VF_CHECK(sameJ(toJ(doc), want, false), "parsed-differently", cut(s) << " as " << cut(show(toJ(doc))));
        }
        auto& reg = registry();
        for (auto n = r.below(3) + 1; n; --n) { auto& te = r.pick(reg); te.feed(doc, te); }
        if (!p.murky) { J again; rapidjson::StringBuffer sb; rapidjson::Writer w{sb}; kl::json::dump_context ctx{w}; kl::json::dump(kl::json::view{doc}, ctx); parser q{std::string_view(sb.GetString(), sb.GetSize())}; again = q.document(); VF_CHECK(q.ok && sameJ(again, toJ(doc), false), "view-dump", cut(s)); }
        VF_CHECK(sameJ(toJ(kl::json::serialize(kl::json::view{doc})), toJ(doc), true), "view-serialize", cut(s));
    }
    catch (const kl::serialization::parse_error& e)
    {
        vf::count("ev.parse_error");
        if (!p.murky) VF_CHECK(!p.ok, "rejected-wellformed", cut(s) << ": " << e.what());
        VF_CHECK(std::strlen(e.what()) > 0, "empty-message", "parse_error without text");
    }
}
// types that exist on one side only
template <class T> static void out_only(const T& v, const J& want, const char* what)
{
    auto same = [&](const J& g) { if (want.k != J::Arr || g.k != J::Arr) return sameJ(g, want, true); auto s = [](J j) { std::sort(j.a.begin(), j.a.end(), [](const J& x, const J& y) { return show(x) < show(y); }); return j; }; return sameJ(s(g), s(want), true); };
    VF_CHECK(same(toJ(kl::json::serialize(v))), "output-only-tree", what << " " << cut(show(want)));
    for (bool pretty : {false, true}) { std::string t = pretty ? kl::json::pretty_dump(v) : kl::json::dump(v); parser p{t}; J g = p.document(); VF_CHECK(p.ok && same(g), "output-only-text", what << " " << cut(t)); }
}
static void containers_case(rng& r)
{
    std::set<int> s; std::unordered_set<std::string> us; std::forward_list<int> fl; std::multiset<int> ms; J js = J::arr(), ju = J::arr(), jf = J::arr(), jm_ = J::arr();
    for (auto n = r.below(6); n; --n) { s.insert((int)r.range(-5, 5)); us.insert(gen_string(r)); fl.push_front((int)r.next()); ms.insert((int)r.below(3)); }
    for (auto x : s) js.a.push_back(J::integer(x)); for (auto& x : us) ju.a.push_back(J::str(x)); for (auto x : fl) jf.a.push_back(J::integer(x)); for (auto x : ms) jm_.a.push_back(J::integer(x));
    out_only(s, js, "set"); out_only(us, ju, "unordered_set"); out_only(ms, jm_, "multiset");
    VF_CHECK(sameJ(toJ(kl::json::serialize(fl)), jf, true), "output-only-tree", "forward_list"); { std::string t = kl::json::dump(fl); parser q{t}; J g = q.document(); VF_CHECK(q.ok && sameJ(g, jf, true), "output-only-text", t); }
    vf::count("ev.containers");
}
static void literal_case()
{
    using namespace kl::json;
    auto d = R"({"a":[1,2.5,null,true],"b":"x"})"_json; J want = J::obj(), a = J::arr(); a.a = {J::integer(1), J::real(2.5), J::null(), J::boolean(true)}; want.o = {{"a", a}, {"b", J::str("x")}};
    VF_CHECK(sameJ(toJ(d), want, true), "literal", show(toJ(d)));
    auto n = "\"a\\u0000b\""_json; VF_CHECK(toJ(n).s == std::string("a\0b", 3), "literal", show(toJ(n)));
    bool threw = false; try { auto e = "[1,"_json; } catch (const kl::serialization::parse_error&) { threw = true; } VF_CHECK(threw, "literal", "malformed literal accepted");
    threw = false; try { auto e = "[1]\0x"_json; } catch (const kl::serialization::parse_error&) { threw = true; } VF_CHECK(threw, "literal", "text after a NUL ignored");
}
static void misc_case(rng& r)
{
    std::string s = gen_string(r); J want = J::str(s); auto dead = std::make_unique<std::string>(s); std::string_view sv{*dead};
    rapidjson::Document d; kl::json::serialize_context ctx{d};
    rapidjson::Value t = kl::json::serialize(sv, ctx); std::string txt = kl::json::dump(sv), pty = kl::json::pretty_dump(sv); dead.reset();
    VF_CHECK(sameJ(toJ(t), want, true), "string_view-tree", show(want)); parser p{txt}; J g = p.document(); VF_CHECK(p.ok && sameJ(g, want, true), "string_view-text", txt); VF_CHECK(pty == txt, "string_view-text", pty);
    std::string_view back; kl::json::deserialize(back, t); VF_CHECK(back == s, "string_view-read", show(want));
    std::string z = s.substr(0, s.find('\0')); const char* cs = z.c_str();
    { auto doc = kl::json::serialize(cs); std::string ct = kl::json::dump(cs); z.assign(z.size(), '#'); VF_CHECK(sameJ(toJ(doc), J::str(s.substr(0, s.find('\0'))), true), "cstring-tree", show(want)); parser q{ct}; J h = q.document(); VF_CHECK(q.ok && h.s == s.substr(0, s.find('\0')), "cstring-text", ct); }
    VF_CHECK(kl::json::dump(nullptr) == "null" && kl::json::serialize(nullptr).IsNull(), "nullptr", "");
    J j = random_doc(r, {}); input in{r, j}; kl::json::view v; kl::json::deserialize(v, in.doc); VF_CHECK(&v.value() == &in.doc, "view", "refers elsewhere");
    { const rapidjson::Value& ref = v; kl::json::view none, same{in.doc}; VF_CHECK(&ref == &in.doc && &*v == &in.doc && v->GetType() == in.doc.GetType() && v && same && !none, "view", "operators refer elsewhere"); } containers_case(r); if (r.chance(1, 20)) literal_case();
    std::map<std::string, kl::json::view> m{{"k", v}}; J wm = J::obj(); wm.o.emplace_back("k", toJ(in.doc)); std::string mt = kl::json::dump(m); parser q{mt}; J h = q.document(); VF_CHECK(q.ok && sameJ(h, wm, false), "view-in-map", cut(mt));
    VF_CHECK(sameJ(toJ(kl::json::serialize(m)), wm, true), "view-in-map-tree", cut(mt)); vf::count("ev.misc"); vf::seen(show(want) + show(j));
}
static void one(rng& r, std::uint64_t idx)
{
    auto& reg = registry(); const std::string& p = vf::st().prop;
    if (p == "C10") { bytes_case(r); return; }
    if (p == "C06" && r.chance(1, 40)) { misc_case(r); return; }
    auto& te = reg[vf::mix(idx) % reg.size()];
    if (p == "C05") te.roundtrip(r, te);
    else if (p == "C06") te.output(r, te);
    else if (p == "C07") te.decode(r, te);
    else if (p == "C08") { if (r.coin()) te.decode(r, te); else if (r.coin()) te.output(r, te); else te.roundtrip(r, te); }
    else if (p == "C09") te.patching(r, te);
    vf::count(std::string("type.") + te.name);
}
int main(int c, char** v) { return vf::run(c, v, one); }

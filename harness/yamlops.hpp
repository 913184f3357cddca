// What each registered type is put through, against the reference model (YAML back end). In a YAML document scalars are
// texts: the model works on documents of Null/Str/Arr/Obj only.
#pragma once
#include "jmodel.hpp"
#include "kl/reflect_enum.hpp"
#include "kl/reflect_struct.hpp"
#include "kl/serialization_attributes.hpp"
#include "kl/yaml.hpp"

namespace jm {
inline J ytext(const J& j)
{
    switch (j.k)
    {
    case J::Bool: return J::str(j.b ? "true" : "false");
    case J::Int: return J::str(i2s(j.i));
    case J::Dbl: return J::str(dtext(j.d));
    case J::Arr: { J o = J::arr(); for (auto& x : j.a) o.a.push_back(ytext(x)); return o; }
    case J::Obj: { J o = J::obj(); for (auto& m : j.o) o.o.emplace_back(m.first, ytext(m.second)); return o; }
    default: return j;
    }
}
inline J nodeJ(const YAML::Node& n, int depth = 0)
{
    if (!n.IsDefined()) return J::str("<undefined>");
    if (n.IsNull()) return J::null();
    if (n.IsScalar()) return J::str(n.Scalar());
    if (n.IsSequence()) { J j = J::arr(); for (const auto& x : n) j.a.push_back(nodeJ(x, depth + 1)); return j; }
    J j = J::obj(); for (const auto& m : n) j.o.emplace_back(m.first.IsScalar() ? m.first.Scalar() : "<key>", nodeJ(m.second, depth + 1)); return j;
}
inline YAML::Node treeJ(const J& j)
{
    switch (j.k)
    {
    case J::Null: return YAML::Node(YAML::NodeType::Null);
    case J::Str: return YAML::Node(j.s);
    case J::Arr: { YAML::Node n(YAML::NodeType::Sequence); for (auto& x : j.a) n.push_back(treeJ(x)); return n; }
    case J::Obj: { YAML::Node n(YAML::NodeType::Map); for (auto& m : j.o) n.force_insert(m.first, treeJ(m.second)); return n; }
    default: return treeJ(ytext(j));
    }
}
// does text `got` of a YAML scalar stand for what the model prescribes?
inline bool sameY(const J& want, const J& got)
{
    switch (want.k)
    {
    case J::Null: return got.k == J::Null;
    case J::Bool: return got.k == J::Str && got.s == (want.b ? "true" : "false");
    case J::Int: return got.k == J::Str && got.s == i2s(want.i);
    case J::Dbl: { if (got.k != J::Str) return false; char* e; double d = std::strtod(got.s.c_str(), &e); return !got.s.empty() && !*e && (close(d, want.d) || (float)d == (float)want.d); }
    case J::Str: return got.k == J::Str && got.s == want.s;
    case J::Arr: if (got.k != J::Arr || got.a.size() != want.a.size()) return false; for (std::size_t i = 0; i < want.a.size(); ++i) if (!sameY(want.a[i], got.a[i])) return false; return true;
    default: if (got.k != J::Obj || got.o.size() != want.o.size()) return false; for (std::size_t i = 0; i < want.o.size(); ++i) if (got.o[i].first != want.o[i].first || !sameY(want.o[i].second, got.o[i].second)) return false; return true;
    }
}
// scalar texts that YAML gives more readings than JSON (octal, hex, signs, yes/no, .inf ...): no verdict is expected of them
inline bool gray_text(const std::string& s)
{
    if (s.empty()) return false;
    auto low = [](std::string x) { for (auto& c : x) c = (char)std::tolower((unsigned char)c); return x; }; std::string l = low(s);
    static const std::set<std::string> words{"y", "n", "yes", "no", "on", "off", "true", "false", "inf", "nan", "infinity"};
    if (words.count(l)) return l != s || (l != "true" && l != "false");
    if (std::isspace((unsigned char)s[0]) || s[0] == '+' || s[0] == '.') return true;
    if (s[0] != '-' && !std::isdigit((unsigned char)s[0])) return false;
    std::size_t i = s[0] == '-'; bool zero = i < s.size() && s[i] == '0';
    if (i == s.size()) return false;
    if (s == "-0" || !std::isdigit((unsigned char)s[i]) || (zero && i + 1 < s.size() && s[i + 1] != '.' && s[i + 1] != 'e')) return true;
    char* e; double d = std::strtod(s.c_str(), &e); if (*e) return true; // digits followed by something else
    return std::fabs(d) > 3e38 || (d != 0 && std::fabs(d) < 1e-37);
}
inline bool gray(const J& j) { if (j.k == J::Str) return gray_text(j.s); for (auto& x : j.a) if (gray(x)) return true; for (auto& m : j.o) if (gray(m.second)) return true; return false; }
inline void scrub(J& j) { auto fix = [](std::string& s) { for (auto& c : s) if (c == 0) c = 'z'; }; if (j.k == J::Str) fix(j.s); for (auto& x : j.a) scrub(x); for (auto& m : j.o) { fix(m.first); scrub(m.second); } }
inline void jsonish(std::string& out, const J& want, rng& r) // flow style; strings always quoted, everything else plain
{
    auto sp = [&] { if (r.chance(1, 4)) out += ' '; };
    switch (want.k)
    {
    case J::Arr: out += '['; for (std::size_t i = 0; i < want.a.size(); ++i) { if (i) out += r.coin() ? ", " : ","; jsonish(out, want.a[i], r); } sp(); out += ']'; break;
    case J::Obj: out += '{'; for (std::size_t i = 0; i < want.o.size(); ++i) { if (i) out += r.coin() ? ", " : ","; quote(out, want.o[i].first); out += r.coin() ? ": " : ":"; jsonish(out, want.o[i].second, r); } sp(); out += '}'; break;
    case J::Str: quote(out, want.s); break;
    case J::Null: out += r.coin() ? "null" : "~"; break;
    default: out += ytext(want).s;
    }
}
struct input
{
    YAML::Node doc; J text; // text: the document as texts
    input(rng& r, const J& j) : text(ytext(j))
    {
        if (r.coin()) { doc.reset(treeJ(text)); return; }
        std::string s;
        if (r.coin()) jsonish(s, j, r); else { YAML::Emitter e; if (r.coin()) { e.SetMapFormat(YAML::Flow); e.SetSeqFormat(YAML::Flow); } e << treeJ(text); s = e.c_str(); }
        doc.reset(kl::yaml::parse(s.c_str()));
        if (!sameJ(nodeJ(doc), text, true)) { vf::count("ev.library_text"); doc.reset(treeJ(text)); } // yaml-cpp did not read the text back as it was meant
        else vf::count("ev.from_text");
    }
};
struct type_entry { const char* name; bool plain; void (*go)(rng&, const type_entry&); void (*feed)(const YAML::Node&); };
inline std::vector<type_entry>& registry() { static auto* v = new std::vector<type_entry>; return *v; }

template <class T> std::string ydump(const T& v, bool skip, unsigned how)
{
    if (skip && how % 3 == 0) return kl::yaml::dump(v);
    YAML::Emitter e; if (how & 8) { e.SetMapFormat(YAML::Flow); e.SetSeqFormat(YAML::Flow); } kl::yaml::dump_context ctx{e, skip};
    if (how % 3 == 1) kl::yaml::dump(v, ctx); else kl::serialization::dump(v, ctx);
    VF_CHECK(e.good(), "emitter-state", e.GetLastError());
    return e.c_str();
}
template <class T> YAML::Node ytree(const T& v, bool skip, unsigned how)
{
    if (skip && how % 3 == 0) return kl::yaml::serialize(v);
    kl::yaml::serialize_context ctx{skip}; return how % 3 == 1 ? kl::yaml::serialize(v, ctx) : kl::serialization::serialize(v, ctx);
}
template <class T> T yread(const YAML::Node& v, unsigned how)
{
    kl::yaml::deserialize_context ctx;
    switch (how % 4) { case 0: return kl::yaml::deserialize<T>(v); case 1: return kl::yaml::deserialize<T>(v, ctx); case 2: return kl::serialization::deserialize<T>(v, ctx); default: { T t{}; kl::yaml::deserialize(t, v); return t; } }
}
template <class T> void do_write(rng& r, const type_entry& te)
{
    const T v = gen<T>(r, 0); bool skip = r.coin(); unsigned how = (unsigned)r.next();
    J j; bool coll = false; try { j = enc(v, skip); } catch (collision&) { coll = true; }
    vf::seen(std::string(te.name) + show(j) + (skip ? "s" : "n")); vf::sample(std::string(te.name) + ": " + show(j));
    if (coll)
    {
        vf::count("ev.extra_collision"); int refused = 0;
        try { (void)ytree(v, skip, how); } catch (const std::logic_error&) { ++refused; }
        try { (void)ydump(v, skip, how); } catch (const std::logic_error&) { ++refused; }
        VF_CHECK(refused == 2, "extra-collision-accepted", te.name); return;
    }
    auto p = std::make_unique<T>(v); YAML::Node t = ytree(*p, skip, how); p.reset();
    J got = nodeJ(t); VF_CHECK(sameY(j, got), "tree-shape", te.name << " got " << cut(show(got)) << " want " << cut(show(j)));
    std::string s = ydump(v, skip, how >> 4); YAML::Node doc;
    try { doc.reset(kl::yaml::parse(s.c_str())); } catch (const kl::serialization::parse_error& e) { vf::fail("unreadable-text", std::string(te.name) + " " + cut(s) + ": " + e.what()); return; }
    J gt = nodeJ(doc); bool texty = sameY(j, gt);
    if (!texty)
    {   // yaml-cpp itself may be unable to write and read back this document: only then is kl not to blame
        std::string ls; { YAML::Emitter e; if ((how >> 4) % 3 && (how >> 4) & 8) { e.SetMapFormat(YAML::Flow); e.SetSeqFormat(YAML::Flow); } e << treeJ(ytext(j)); ls = e.c_str(); }
        bool lib = false; try { lib = sameJ(nodeJ(YAML::Load(ls)), ytext(j), true); } catch (const YAML::Exception&) {}
        if (lib) vf::fail("text-shape", std::string(te.name) + " got " + cut(s) + " want " + cut(show(j))); else vf::count("ev.library_text");
    }
    vf::count(skip ? "ev.skip_nulls" : "ev.emit_nulls");
    // and back
    J jt = ytext(j); T want = T{}; bool readable = true;
    try { dec(want, jt); } catch (rej&) { if (te.plain) throw std::runtime_error("model does not round-trip"); readable = false; }
    if (te.plain && !skip) want = v;
    if (!readable) return;
    VF_CHECK(eq(yread<T>(t, how >> 8), want, false), "tree-roundtrip", te.name << " " << cut(show(j)));
    VF_CHECK(sameJ(nodeJ(t), got, true), "source-modified", te.name << " " << cut(show(got)) << " became " << cut(show(nodeJ(t))));
    if (texty) VF_CHECK(eq(yread<T>(doc, how >> 10), want, false), "text-roundtrip", te.name << " " << cut(s));
    T dirty = gen<T>(r, 0), dw = dirty; dec(dw, jt); kl::yaml::deserialize(dirty, t);
    VF_CHECK(eq(dirty, dw, false), "into-existing", te.name << " " << cut(show(j)));
    vf::count("ev.roundtrip");
}
template <class T> void do_read(rng& r, const type_entry& te, bool patching)
{
    J j;
    if (r.chance(1, 12)) j = random_doc(r, words<T>());
    else { for (int k = 0; k < 4; ++k) { try { j = enc(gen<T>(r, 0), r.coin()); break; } catch (collision&) {} } if (r.chance(1, 6)) thin(r, j); for (auto n = r.below(4); n; --n) mutate(r, j, words<T>()); }
    if (patching && j.k == J::Obj) { if (r.chance(2, 3)) { J k = J::obj(); for (auto& m : j.o) if (r.coin()) k.o.push_back(m); j = k; } for (auto& m : j.o) if (m.second.k == J::Obj && r.coin()) { J k = J::obj(); for (auto& x : m.second.o) if (r.coin()) k.o.push_back(x); m.second = k; } if (r.chance(1, 15)) j = J::obj(); }
    scrub(j);
    input in{r, j}; bool unsure = gray(in.text);
    T got = patching || r.coin() ? gen<T>(r, 0) : T{}; T want = got; const T before = got; bool acc = true; rej e;
    try { if (patching) patch(want, in.text); else dec(want, in.text); } catch (rej& x) { acc = false; e = std::move(x); }
    vf::seen(std::string(te.name) + (patching ? show(enc_safe(before)) : "") + show(j)); vf::sample(std::string(te.name) + (patching ? " <~ " : " <- ") + show(j));
    std::string what = std::string(te.name) + (patching ? " " + cut(show(enc_safe(before))) + " <~ " : " <- ") + cut(show(in.text));
    try
    {
        kl::yaml::deserialize_context ctx; bool top = r.coin(); const YAML::Node& d = in.doc;
        if (patching) { if (top) kl::yaml::patch(got, d); else kl::serialization::patch(got, d, ctx); } else { if (top) kl::yaml::deserialize(got, d); else kl::serialization::deserialize(got, d, ctx); }
        if (unsure) vf::count("ev.unsure");
        else if (!acc) vf::fail(patching ? "patch-accepted-bad" : "accepted-bad", what + " gave " + cut(show(enc_safe(got))));
        else { vf::count(patching ? "ev.patched" : "ev.accepted"); if (!eq(got, want, false)) vf::fail(patching ? "patch-value" : "wrong-value", what + " gave " + cut(show(enc_safe(got))) + " want " + cut(show(enc_safe(want)))); }
    }
    catch (const kl::serialization::deserialize_error& ex)
    {
        if (unsure) vf::count("ev.unsure");
        else if (acc) vf::fail(patching ? "patch-rejected-good" : "rejected-good", what + ": " + ex.what());
        else { vf::count("ev.rejected"); auto m = message_problem(ex.what(), e); if (!m.empty()) vf::fail("error-message", what + ": " + m + " in: " + ex.what()); }
    }
    J after = nodeJ(in.doc); VF_CHECK(sameJ(after, in.text, true), "source-modified", what << " left the document as " << cut(show(after))); vf::count("ev.source_checked");
}
template <class T> void do_type(rng& r, const type_entry& te) { switch (r.below(3)) { case 0: do_write<T>(r, te); break; case 1: do_read<T>(r, te, false); break; default: do_read<T>(r, te, true); } }
template <class T> void do_feed(const YAML::Node& d) { for (int k = 0; k < 2; ++k) { T t{}; try { if (k) kl::yaml::patch(t, d); else kl::yaml::deserialize(t, d); vf::count("ev.fed_ok"); } catch (const kl::serialization::deserialize_error& e) { vf::count("ev.fed_rejected"); VF_CHECK(std::strlen(e.what()) > 0, "empty-message", "deserialize_error without text"); } } }
template <class T> int add_type(const char* name, bool plain) { registry().push_back({name, plain, do_type<T>, do_feed<T>}); return 0; }
#define VF_CAT2(a, b) a##b
#define VF_CAT(a, b) VF_CAT2(a, b)
#define VF_PLAIN(...) static int VF_CAT(reg_, __LINE__) = jm::add_type<__VA_ARGS__>(#__VA_ARGS__, true);
#define VF_ATTR(...) static int VF_CAT(reg_, __LINE__) = jm::add_type<__VA_ARGS__>(#__VA_ARGS__, false);
} // namespace jm

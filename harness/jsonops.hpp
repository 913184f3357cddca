// What each registered type is put through, against the reference model (JSON back end).
#pragma once
#include "jmodel.hpp"
#include "kl/json.hpp"
#include "kl/reflect_enum.hpp"
#include "kl/reflect_struct.hpp"
#include "kl/serialization_attributes.hpp"

namespace jm {
inline J toJ(const rapidjson::Value& v)
{
    switch (v.GetType())
    {
    case rapidjson::kNullType: return J::null();
    case rapidjson::kFalseType: return J::boolean(false);
    case rapidjson::kTrueType: return J::boolean(true);
    case rapidjson::kStringType: return J::str(std::string(v.GetString(), v.GetStringLength()));
    case rapidjson::kNumberType: if (v.IsUint64()) return J::integer((i128)v.GetUint64()); if (v.IsInt64()) return J::integer((i128)v.GetInt64()); return J::real(v.GetDouble());
    case rapidjson::kArrayType: { J j = J::arr(); for (auto& x : v.GetArray()) j.a.push_back(toJ(x)); return j; }
    default: { J j = J::obj(); for (auto& m : v.GetObject()) j.o.emplace_back(std::string(m.name.GetString(), m.name.GetStringLength()), toJ(m.value)); return j; }
    }
}
inline rapidjson::Value fromJ(const J& j, rapidjson::Document::AllocatorType& al)
{
    switch (j.k)
    {
    case J::Null: return rapidjson::Value();
    case J::Bool: return rapidjson::Value(j.b);
    case J::Int: if (j.i < 0) return rapidjson::Value((std::int64_t)j.i); return rapidjson::Value((std::uint64_t)j.i);
    case J::Dbl: return rapidjson::Value(j.d);
    case J::Str: return rapidjson::Value(j.s.data(), (rapidjson::SizeType)j.s.size(), al);
    case J::Arr: { rapidjson::Value v(rapidjson::kArrayType); for (auto& x : j.a) { auto e = fromJ(x, al); v.PushBack(e, al); } return v; }
    default: { rapidjson::Value v(rapidjson::kObjectType); for (auto& m : j.o) { rapidjson::Value k(m.first.data(), (rapidjson::SizeType)m.first.size(), al); auto e = fromJ(m.second, al); v.AddMember(k, e, al); } return v; }
    }
}
// the document as kl gets it: built as a tree, or parsed from text held in an exact, unterminated buffer
struct input
{
    rapidjson::Document doc; bool exact = true; std::string text;
    input(rng& r, const J& j)
    {
        if (r.coin()) { rapidjson::Value v = fromJ(j, doc.GetAllocator()); static_cast<rapidjson::Value&>(doc).Swap(v); return; }
        exact = false; write(text, j, &r);
        std::unique_ptr<char[]> b(new char[text.size()]); std::memcpy(b.get(), text.data(), text.size());
        doc = kl::json::parse(std::string_view(b.get(), text.size())); // b dies here: the document must not refer to it
    }
};
struct type_entry
{
    const char* name; bool plain;
    void (*roundtrip)(rng&, const type_entry&);
    void (*output)(rng&, const type_entry&);
    void (*decode)(rng&, const type_entry&);
    void (*patching)(rng&, const type_entry&);
    void (*feed)(const rapidjson::Value&, const type_entry&);
    const std::vector<std::string>& (*wordlist)();
};
inline std::vector<type_entry>& registry() { static auto* v = new std::vector<type_entry>; return *v; }

template <class T> std::string text_of(const T& v, bool pretty, bool skip, unsigned how)
{
    if (skip && how % 3 == 0) return pretty ? kl::json::pretty_dump(v) : kl::json::dump(v);
    rapidjson::StringBuffer b;
    auto go = [&](auto& w) { kl::json::dump_context ctx{w, skip}; if (how % 3 == 1) kl::json::dump(v, ctx); else kl::serialization::dump(v, ctx); };
    if (pretty) { rapidjson::PrettyWriter w{b}; go(w); } else { rapidjson::Writer w{b}; go(w); }
    return std::string(b.GetString(), b.GetSize());
}
// serializes a copy that is destroyed before the tree is looked at
template <class T, class Fn> void with_tree(const T& v, bool skip, unsigned how, Fn fn)
{
    auto p = std::make_unique<T>(v);
    if (skip && how % 4 == 0) { auto doc = kl::json::serialize(*p); p.reset(); fn(doc); }
    else if (how % 4 == 1) { kl::json::owning_serialize_context ctx{skip}; auto t = kl::json::serialize(*p, ctx); p.reset(); fn(t); }
    else { rapidjson::Document d; kl::json::serialize_context ctx{d, skip}; auto t = how % 4 == 2 ? kl::json::serialize(*p, ctx) : kl::serialization::serialize(*p, ctx); p.reset(); fn(t); }
}
template <class T> T read(const rapidjson::Value& v, unsigned how)
{
    kl::json::deserialize_context ctx;
    switch (how % 4) { case 0: return kl::json::deserialize<T>(v); case 1: return kl::json::deserialize<T>(v, ctx); case 2: return kl::serialization::deserialize<T>(v, ctx); default: { T t{}; kl::json::deserialize(t, v); return t; } }
}
template <class T> void do_roundtrip(rng& r, const type_entry& te)
{
    const T v = gen<T>(r, 0); bool skip = r.coin(); unsigned how = (unsigned)r.next();
    J j; try { j = enc(v, skip); } catch (collision&) { return; }
    vf::seen(std::string(te.name) + show(j)); vf::count("ev.roundtrip"); vf::sample(std::string(te.name) + ": " + show(j));
    T want = T{}; // what the model says reading the output back gives; for plain types the value itself
    try { dec(want, j); } catch (rej&) { if (te.plain) throw std::runtime_error("model does not round-trip"); want = T{}; j.k = J::Null; }
    if (j.k == J::Null && !te.plain) return; // unreadable by declaration (required field skipped on output)
    if (te.plain && !skip) want = v;
    with_tree(v, skip, how, [&](const rapidjson::Value& t) {
        VF_CHECK(eq(read<T>(t, how >> 4), want, true), "tree-roundtrip", te.name << " " << cut(show(j)));
        T dirty = gen<T>(r, 0); // data left over from before must not shine through, except where attributes say so
        T dw = dirty; dec(dw, j);
        kl::json::deserialize(dirty, t);
        VF_CHECK(eq(dirty, dw, true), "tree-into-existing", te.name << " " << cut(show(j)));
        if (te.plain) VF_CHECK(eq(dirty, want, true), "tree-into-existing", te.name << " " << cut(show(j)));
        vf::count("ev.into_existing");
    });
    for (bool pretty : {false, true})
    {
        std::string s = text_of(v, pretty, skip, how >> 8);
        auto doc = kl::json::parse(s);
        VF_CHECK(eq(read<T>(doc, how >> 12), want, false), pretty ? "pretty-roundtrip" : "text-roundtrip", te.name << " " << cut(s));
        T dirty = gen<T>(r, 0), dw = dirty; dec(dw, j); kl::json::deserialize(dirty, doc);
        VF_CHECK(eq(dirty, dw, false), "text-into-existing", te.name << " " << cut(s));
    }
}
template <class T> void do_output(rng& r, const type_entry& te)
{
    const T v = gen<T>(r, 0); bool skip = r.coin(); unsigned how = (unsigned)r.next();
    J want; bool coll = false; try { want = enc(v, skip); } catch (collision&) { coll = true; }
    vf::seen(std::string(te.name) + show(want) + (skip ? "s" : "n")); vf::sample(std::string(te.name) + ": " + show(want));
    if (coll)
    {
        vf::count("ev.extra_collision");
        for (int k = 0; k < 3; ++k)
        {
            bool refused = false;
            try { if (k == 2) with_tree(v, skip, how, [](auto&) {}); else text_of(v, k, skip, how >> 4); } catch (const std::logic_error&) { refused = true; }
            VF_CHECK(refused, "extra-collision-accepted", te.name << " mode " << k);
        }
        return;
    }
    vf::count(skip ? "ev.skip_nulls" : "ev.emit_nulls");
    with_tree(v, skip, how, [&](const rapidjson::Value& t) { J got = toJ(t); VF_CHECK(sameJ(got, want, true), "tree-shape", te.name << " got " << cut(show(got)) << " want " << cut(show(want))); });
    for (bool pretty : {false, true})
    {
        std::string s = text_of(v, pretty, skip, how >> 4);
        parser p{s}; J got = p.document();
        VF_CHECK(p.ok, "malformed-text", te.name << " " << cut(s));
        if (p.ok) VF_CHECK(sameJ(got, want, false), pretty ? "pretty-shape" : "text-shape", te.name << " got " << cut(s) << " want " << cut(show(want)));
    }
}
// One document into one type: same verdict and same value as the model
template <class T> void judge_decode(rng& r, const type_entry& te, const J& j)
{
    input in{r, j};
    if (!in.exact) VF_CHECK(sameJ(toJ(in.doc), j, false), "parse", cut(in.text) << " parsed as " << cut(show(toJ(in.doc))));
    T got = r.coin() ? T{} : gen<T>(r, 0); T want = got; bool acc = true; rej e;
    try { dec(want, j); } catch (rej& x) { acc = false; e = std::move(x); }
    vf::seen(std::string(te.name) + show(j));
    try
    {
        if (r.coin()) kl::json::deserialize(got, in.doc); else { kl::json::deserialize_context ctx; kl::serialization::deserialize(got, static_cast<const rapidjson::Value&>(in.doc), ctx); }
        if (!acc) vf::fail("accepted-bad-document", std::string(te.name) + " <- " + cut(show(j)) + " gave " + cut(show(enc_safe(got))));
        else { vf::count("ev.accepted"); VF_CHECK(eq(got, want, in.exact), "wrong-value", te.name << " <- " << cut(show(j)) << " gave " << cut(show(enc_safe(got))) << " want " << cut(show(enc_safe(want)))); }
    }
    catch (const kl::serialization::deserialize_error& ex)
    {
        if (acc) vf::fail("rejected-good-document", std::string(te.name) + " <- " + cut(show(j)) + ": " + ex.what());
        else { vf::count("ev.rejected"); if (!e.ctx.empty()) vf::count("ev.context"); auto m = message_problem(ex.what(), e); if (!m.empty()) vf::fail("error-message", std::string(te.name) + " <- " + cut(show(j)) + ": " + m + " in: " + ex.what()); }
    }
}
template <class T> J gen_doc(rng& r)
{
    J j;
    if (r.chance(1, 12)) j = random_doc(r, words<T>());
    else
    {
        for (int k = 0; k < 4; ++k) { try { j = enc(gen<T>(r, 0), r.coin()); break; } catch (collision&) {} }
        if (r.chance(1, 6)) thin(r, j);
        auto n = r.below(4); // 0: untouched
        for (; n; --n) mutate(r, j, words<T>());
    }
    return j;
}
template <class T> void do_decode(rng& r, const type_entry& te) { J j = gen_doc<T>(r); vf::sample(std::string(te.name) + " <- " + show(j)); judge_decode<T>(r, te, j); }

template <class T> void do_patching(rng& r, const type_entry& te)
{
    T got = gen<T>(r, 0); J j = gen_doc<T>(r);
    if (j.k == J::Obj && r.chance(2, 3)) { // mention only some members
        J k = J::obj(); for (auto& m : j.o) if (r.coin()) k.o.push_back(m); j = k; }
    if (j.k == J::Obj) for (auto& m : j.o) if (m.second.k == J::Obj && r.coin()) { J k = J::obj(); for (auto& x : m.second.o) if (r.coin()) k.o.push_back(x); m.second = k; }
    if (r.chance(1, 15)) j = J::obj();
    input in{r, j};
    T want = got; bool acc = true; rej e; const T before = got;
    try { patch(want, j); } catch (rej& x) { acc = false; e = std::move(x); }
    vf::seen(std::string(te.name) + show(enc_safe(before)) + show(j)); vf::sample(std::string(te.name) + ": " + show(enc_safe(before)) + " <~ " + show(j));
    try
    {
        if (r.coin()) kl::json::patch(got, in.doc); else { kl::json::deserialize_context ctx; kl::serialization::patch(got, static_cast<const rapidjson::Value&>(in.doc), ctx); }
        if (!acc) vf::fail("patch-accepted-bad", std::string(te.name) + " " + cut(show(enc_safe(before))) + " <~ " + cut(show(j)));
        else
        {
            vf::count("ev.patched"); if (eq(before, want, true)) vf::count("ev.identity"); if (j.k != J::Obj) vf::count("ev.replaced");
            VF_CHECK(eq(got, want, in.exact), "patch-value", te.name << " " << cut(show(enc_safe(before))) << " <~ " << cut(show(j)) << " gave " << cut(show(enc_safe(got))) << " want " << cut(show(enc_safe(want))));
            if constexpr (has_D<T>::value) if (j.k == J::Obj && j.o.empty()) { VF_CHECK(eq(got, before, true), "patch-empty", te.name << " " << cut(show(enc_safe(before)))); vf::count("ev.empty_patch"); }
        }
    }
    catch (const kl::serialization::deserialize_error& ex)
    {
        if (acc) vf::fail("patch-rejected-good", std::string(te.name) + " " + cut(show(enc_safe(before))) + " <~ " + cut(show(j)) + ": " + ex.what());
        else { vf::count("ev.patch_rejected"); auto m = message_problem(ex.what(), e); if (!m.empty()) vf::fail("patch-error-message", std::string(te.name) + " <~ " + cut(show(j)) + ": " + m + " in: " + ex.what()); }
    }
}
template <class T> void do_feed(const rapidjson::Value& v, const type_entry&)
{
    for (int k = 0; k < 2; ++k)
    {
        T t{};
        try { if (k) kl::json::patch(t, v); else kl::json::deserialize(t, v); vf::count("ev.fed_ok"); }
        catch (const kl::serialization::deserialize_error& e) { vf::count("ev.fed_rejected"); VF_CHECK(std::strlen(e.what()) > 0, "empty-message", "deserialize_error without text"); }
    }
}
#ifndef VF_OPS
#define VF_OPS 31
#endif
template <class T> int add_type(const char* name, bool plain)
{
    type_entry e{name, plain, nullptr, nullptr, nullptr, nullptr, nullptr, words<T>};
    if constexpr ((VF_OPS & 1) != 0) e.roundtrip = do_roundtrip<T>;
    if constexpr ((VF_OPS & 2) != 0) e.output = do_output<T>;
    if constexpr ((VF_OPS & 4) != 0) e.decode = do_decode<T>;
    if constexpr ((VF_OPS & 8) != 0) e.patching = do_patching<T>;
    if constexpr ((VF_OPS & 16) != 0) e.feed = do_feed<T>;
    registry().push_back(e);
    return 0;
}
#define VF_CAT2(a, b) a##b
#define VF_CAT(a, b) VF_CAT2(a, b)
#define VF_PLAIN(...) static int VF_CAT(reg_, __LINE__) = jm::add_type<__VA_ARGS__>(#__VA_ARGS__, true);
#define VF_ATTR(...) static int VF_CAT(reg_, __LINE__) = jm::add_type<__VA_ARGS__>(#__VA_ARGS__, false);
} // namespace jm

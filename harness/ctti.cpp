// C22: struct reflection against hand-written field tables (name, address, size, attributes).
#include "vf.hpp"
#include <array>
#include <memory>
#include <optional>
#include "kl/ctti.hpp"
#include "kl/tuple.hpp"
using vf::rng;
namespace ct {
struct a1 { int v; friend bool operator==(const a1& l, const a1& r) { return l.v == r.v; } };
struct a2 { const char* s; };
struct a_base { int w = 0; };
struct a_derived : a_base { a_derived(int x) { w = x; } };
struct a_rt { std::string s; a_rt(const char* x) : s(x) {} }; // not constexpr

struct one_field { int x; };
KL_REFLECT_STRUCT(one_field, x)
struct three { int i; bool b; double d; };
KL_REFLECT_STRUCT(three, i, b, d)
struct reordered { char a; long b; char c; short d; };
KL_REFLECT_STRUCT(reordered, d, a, c)          // b not reflected, other order
struct attrs { int p; std::string q; std::optional<int> r; double s; int t; };
KL_REFLECT_STRUCT(attrs, (p, a1{5}), (q, a2{"two"}, a1{-1}), r, (s, a_derived{9}), (t, a1{1}, a1{2}, a_rt{"run"}))
struct base1 { int b1; std::string b2; };
KL_REFLECT_STRUCT(base1, b1, (b2, a1{7}))
struct base2 { double x; char y; };
KL_REFLECT_STRUCT(base2, x, y)
struct der1 : base1 { int d; };
KL_REFLECT_STRUCT_DERIVED(der1, base1, d)
struct der2 : base2, base1 { int e; std::vector<int> f; };
KL_REFLECT_STRUCT_DERIVED(der2, (base1, base2), (e, a1{3}), f)
struct der3 : der1 { base2 nested; int last; };
KL_REFLECT_STRUCT_DERIVED(der3, (der1), nested, last)
struct sibling : base2 { int own; }; // reflects own before nothing else
KL_REFLECT_STRUCT_DERIVED(sibling, base2, own)
class priv { int s1 = 1; std::string s2; KL_REFLECT_STRUCT_FRIEND(priv, s1, (s2, a2{"z"}))
public: const void* p1() const { return &s1; } const void* p2() const { return &s2; } };
class privd : public priv { long z = 0; KL_REFLECT_STRUCT_DERIVED_FRIEND(privd, priv, z) public: const void* pz() const { return &z; } };
struct inner { int u, v; };
KL_REFLECT_STRUCT(inner, u, v)
struct acc { inner in; int& ref; int hidden; };
template <typename Factory, typename Visitor>
constexpr void reflect_struct_fields(Factory&& factory, Visitor&& vis, kl::ctti::record_class<acc>)
{
    vis(KL_ACCESSOR_FIELD_NAMED("u", object.in.u));
    vis(KL_ACCESSOR_FIELD(ref));
    vis(KL_ACCESSOR_FIELD_NAMED("in", object.in));
}
constexpr std::size_t reflect_num_fields(kl::ctti::record_class<acc>) noexcept { return 3; }
struct big { int f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, g0, g1, g2, g3, g4, g5, g6, g7, g8, g9, h0, h1, h2, h3, h4, h5, h6, h7, h8, h9; };
KL_REFLECT_STRUCT(big, f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, g0, g1, g2, g3, g4, g5, g6, g7, g8, g9, h0, h1, h2, h3, h4, h5, h6, h7, h8, h9)
template <class T> struct tmpl_holder { T t; };
struct arrays { int a[3]; std::array<short, 2> b; std::pair<int, int> c; const int k = 4; };
KL_REFLECT_STRUCT(arrays, a, b, c, k)
struct not_reflected { int x; };
struct a3 { int z; }; struct a4 { char c; };
// many attributes on one field, in every position
struct manyattr { int m0; int m1; std::string m2; char m3; int m4; };
KL_REFLECT_STRUCT(manyattr, (m0, a3{1}, a4{'x'}, a1{8}), (m1, a3{1}, a3{2}, a2{"late"}, a4{'y'}, a1{9}), (m2, a1{1}, a1{2}, a1{3}, a1{4}, a_rt{"q"}, a3{3}, a_derived{6}, a2{"end"}), (m3, a4{'z'}, a_derived{2}), (m4, a1{0}, a_base{0}, a2{""}, a3{0}, a4{0}, a1{-2}, a1{-3}))
// five levels, the middle ones with attributes; and three bases, one of them derived itself
struct lv1 : base1 { int l1; }; KL_REFLECT_STRUCT_DERIVED(lv1, base1, (l1, a1{11}, a2{"l"}))
struct lv2 : lv1 { char l2; }; KL_REFLECT_STRUCT_DERIVED(lv2, lv1, l2)
struct lv3 : lv2 { double l3; int l3b; }; KL_REFLECT_STRUCT_DERIVED(lv3, lv2, l3, (l3b, a4{'b'}, a1{12}))
struct lv4 : lv3 { std::string l4; }; KL_REFLECT_STRUCT_DERIVED(lv4, lv3, (l4, a_derived{4}))
struct third { long t1; short t2; }; KL_REFLECT_STRUCT(third, t1, (t2, a2{"t"}))
struct multi : third, lv1, base2 { int own; }; KL_REFLECT_STRUCT_DERIVED(multi, (lv1, base2, third), (own, a1{5}))
struct wide { int w0, w1, w2, w3, w4, w5, w6, w7, w8, w9, x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, y0, y1, y2, y3, y4, y5, y6, y7, y8, y9, z0, z1, z2, z3, z4, z5, z6, z7, z8, z9; };
KL_REFLECT_STRUCT(wide, w0, w1, w2, w3, w4, w5, w6, (w7, a1{7}), w8, w9, x0, x1, x2, x3, x4, x5, (x6, a2{"x6"}), x7, x8, x9, y0, y1, y2, y3, y4, y5, y6, y7, y8, y9, z0, z1, (z2, a1{32}, a1{33}), z3, z4, z5, z6, z7, z8, (z9, a_derived{39}))
struct wider : wide { int last; }; KL_REFLECT_STRUCT_DERIVED(wider, wide, last)
// attributes that match through a base class, before and after exact ones: the first declared match counts
struct a_derived2 : a_derived { a_derived2(int x) : a_derived(x) {} };
struct a_otherd : a_base { a_otherd(int x) { w = x; } };
struct mixattr { int k0; int k1; int k2; int k3; std::string k4; };
KL_REFLECT_STRUCT(mixattr, (k0, a_derived{1}, a_base{2}), (k1, a_base{3}, a_derived{4}), (k2, a_derived2{5}, a_derived{6}, a_otherd{7}), (k3, a1{1}, a_otherd{8}, a2{"k"}, a_base{9}, a_base{10}, a_derived2{11}), (k4, a_otherd{12}, a_derived2{13}))
} // namespace ct
using namespace ct;

struct row { const char* name; const void* addr; std::size_t size; std::vector<int> a1s; const char* a2s; int base; };
using rows = std::vector<row>;
template <class T> row R(const char* n, const T& x, std::vector<int> a = {}, const char* b = nullptr, int base = -1) { return {n, &x, sizeof(T), std::move(a), b, base}; }

template <class Field> void check_attrs(const Field& f, const row& w, const char* id)
{
    VF_CHECK(f.template has<a1>() == !w.a1s.empty() && f.template has<a2>() == (w.a2s != nullptr) && f.template has<a_base>() == (w.base >= 0), "has", id << "." << w.name);
    auto* g = f.template get<a1>(); VF_CHECK((g != nullptr) == !w.a1s.empty() && (!g || g->v == w.a1s[0]), "get", id << "." << w.name);
    auto* h = f.template get<a2>(); VF_CHECK((h != nullptr) == (w.a2s != nullptr) && (!h || std::string(h->s) == w.a2s), "get", id << "." << w.name);
    auto* b = f.template get<a_base>(); VF_CHECK((b != nullptr) == (w.base >= 0) && (!b || b->w == w.base), "get-base", id << "." << w.name);
    std::vector<int> seen; f.template visit_attributes<a1>([&](const auto& x) { seen.push_back(x.v); }); VF_CHECK(seen == w.a1s, "visit_attributes", id << "." << w.name);
    std::size_t n = 0; f.visit_attributes([&](const auto&) { ++n; }); VF_CHECK(n >= w.a1s.size() + (w.a2s != nullptr) + (w.base >= 0), "visit_attributes", id << "." << w.name);
}
template <class T> void check_object(T& obj, const rows& want, const char* id)
{
    using M = std::remove_const_t<T>;
    VF_CHECK(kl::ctti::is_reflectable_v<M>, "is_reflectable", id);
    const auto n = kl::ctti::num_fields<M>();
    VF_CHECK(n == want.size() && kl::ctti::num_fields<T&>() == n, "num_fields", id << " " << n);
    std::size_t i = 0;
    kl::ctti::reflect_object(obj, [&](auto f) {
        if (i >= want.size()) { vf::fail("extra-field", std::string(id) + "." + f.name()); ++i; return; }
        auto& w = want[i++];
        using V = std::remove_reference_t<decltype(f.value())>;
        VF_CHECK(std::is_lvalue_reference_v<decltype(f.value())>, "lvalue", id << "." << w.name);
        VF_CHECK(std::string(f.name()) == w.name, "name", id << " field " << i << " is " << f.name() << " expected " << w.name);
        VF_CHECK((const void*)std::addressof(f.value()) == w.addr && sizeof(V) == w.size, "address", id << "." << w.name);
        VF_CHECK((std::is_same_v<typename decltype(f)::value_type, std::remove_const_t<V>>), "value_type", id << "." << w.name);
        if (std::is_const_v<T> && std::string(w.name) != "ref" && std::string(w.name) != "u_") VF_CHECK(std::is_const_v<std::remove_all_extents_t<V>> , "constness", id << "." << w.name);
        check_attrs(f, w, id); vf::count("ev.fields");
    });
    VF_CHECK(i == want.size(), "visited", id << " visited " << i << " expected " << want.size());
    i = 0;
    kl::ctti::reflect_type<T>([&](auto f) { if (i < want.size()) { VF_CHECK(std::string(f.name()) == want[i].name && sizeof(typename decltype(f)::value_type) == want[i].size, "type-field", id << " field " << i); check_attrs(f, want[i], id); } ++i; });
    VF_CHECK(i == want.size(), "type-visited", id << " visited " << i);
    i = 0; // filtered: only a1 attributes remain visible
    kl::ctti::reflect_type<T, kl::ctti::any_attribute_filter<a1>>([&](auto f) {
        if (i < want.size()) { row w = want[i]; w.a2s = nullptr; w.base = -1; check_attrs(f, w, id); std::size_t k = 0; f.visit_attributes([&](const auto&) { ++k; }); VF_CHECK(k == w.a1s.size(), "filter", id << "." << w.name << " kept " << k); } ++i; });
    VF_CHECK(i == want.size(), "filter-visited", id);
    i = 0; kl::ctti::reflect_type<T, kl::ctti::any_attribute_filter<>>([&](auto f) { std::size_t k = 0; f.visit_attributes([&](const auto&) { ++k; }); VF_CHECK(k == 0, "filter-none", id); ++i; });
    VF_CHECK(i == want.size(), "filter-visited", id);
    bool any1 = false, any2 = false, anyb = false; for (auto& w : want) { any1 |= !w.a1s.empty(); any2 |= w.a2s != nullptr; anyb |= w.base >= 0; }
    VF_CHECK((kl::ctti::has_any_attribute<M, a1>()) == any1 && (kl::ctti::has_any_attribute<M, a2>()) == any2 && (kl::ctti::has_any_attribute<M, a_base>()) == anyb && (kl::ctti::has_any_attribute<M, a1, a2>()) == (any1 || any2), "has_any_attribute", id);
}
template <class T> void check_both(T& o, const rows& w, const char* id) { check_object<T>(o, w, id); check_object<const T>(o, w, id); vf::seen(id); }

// writing through the k-th reference changes that member only
template <class T, class Snap> void check_write(rng& r, T& o, Snap snap, const char* id)
{
    auto k = r.below(kl::ctti::num_fields<T>()); std::size_t i = 0;
    auto before = snap(o); T other = o; auto obefore = snap(other);
    kl::ctti::reflect_object(o, [&](auto f) { if (i++ == k) { using V = std::remove_reference_t<decltype(f.value())>; if constexpr (std::is_arithmetic_v<V>) f.value() = (V)(f.value() ? 0 : 1); else if constexpr (std::is_same_v<V, std::string>) f.value() += "!"; else if constexpr (std::is_same_v<V, std::optional<int>>) { if (f.value()) f.value().reset(); else f.value() = 3; } else if constexpr (std::is_same_v<V, std::vector<int>>) f.value().push_back(1); } });
    auto after = snap(o); std::size_t changed = 0, which = 0; for (std::size_t j = 0; j < after.size(); ++j) if (after[j] != before[j]) { ++changed; which = j; }
    VF_CHECK(changed == 1 && which == k, "write-through", id << " field " << k << " changed " << changed << " members, last " << which);
    VF_CHECK(snap(other) == obefore, "write-other", id); vf::count("ev.writes");
}
template <class T> std::string S(const T& t) { std::ostringstream o; o << t; return o.str(); }
static std::string SO(const std::optional<int>& t) { return t ? S(*t) : "-"; }

static void tuples(rng& r)
{
    std::tuple<int, std::string, double> t{(int)r.below(100), std::string(r.below(5), 'x'), 0.5}; std::vector<const void*> ad; std::string order;
    kl::tuple::for_each_fn::call(t, [&](auto& x) { ad.push_back(&x); order += std::is_same_v<decltype(x), int&> ? 'i' : std::is_same_v<decltype(x), std::string&> ? 's' : 'd'; });
    VF_CHECK(order == "isd" && ad.size() == 3 && ad[0] == &std::get<0>(t) && ad[1] == &std::get<1>(t) && ad[2] == &std::get<2>(t), "tuple-for_each", order);
    int x = 1; std::vector<short> v{7, 8}; std::optional<double> od{2.0};
    std::tuple<int*, std::vector<short>::const_iterator, std::optional<double>> src{&x, v.cbegin() + 1, od};
    auto refs = kl::tuple::transform_ref_fn::call(src);
    VF_CHECK((std::is_same_v<decltype(refs), std::tuple<int&, const short&, double&>>), "transform_ref-type", "types");
    VF_CHECK(&std::get<0>(refs) == &x && &std::get<1>(refs) == &v[1] && &std::get<2>(refs) == &*std::get<2>(src), "transform_ref", "addresses");
    std::tuple<int, int, int> p{(int)r.below(2), (int)r.below(2), (int)r.below(2)}, q{(int)r.below(2), (int)r.below(2), (int)r.below(2)};
    bool all = std::get<0>(p) != std::get<0>(q) && std::get<1>(p) != std::get<1>(q) && std::get<2>(p) != std::get<2>(q);
    VF_CHECK(kl::tuple::not_equal_fn::call(p, q) == all, "not_equal", "tuple inequality"); vf::count("ev.tuples");
}
static void one(rng& r, std::uint64_t idx)
{
    std::uint64_t hv = idx % 21; auto n = [&] { int x = (int)r.below(1000); hv = vf::mix(hv * 31 + x); return x; };
    switch (idx % 21)
    {
    case 0: { auto o = std::make_unique<one_field>(one_field{n()}); check_both(*o, {R("x", o->x)}, "one_field"); break; }
    case 1: { auto o = std::make_unique<three>(three{n(), r.coin(), 1.5}); check_both(*o, {R("i", o->i), R("b", o->b), R("d", o->d)}, "three"); check_write(r, *o, [](three& t) { return std::vector<std::string>{S(t.i), S(t.b), S(t.d)}; }, "three"); break; }
    case 2: { auto o = std::make_unique<reordered>(); *o = {'a', 2, 'c', 3}; check_both(*o, {R("d", o->d), R("a", o->a), R("c", o->c)}, "reordered"); break; }
    case 3: { auto o = std::make_unique<attrs>(attrs{n(), "q", std::nullopt, .5, n()}); check_both(*o, {R("p", o->p, {5}), R("q", o->q, {-1}, "two"), R("r", o->r), R("s", o->s, {}, nullptr, 9), R("t", o->t, {1, 2})}, "attrs");
        check_write(r, *o, [](attrs& t) { return std::vector<std::string>{S(t.p), t.q, SO(t.r), S(t.s), S(t.t)}; }, "attrs");
        kl::ctti::reflect_object(*o, [&](auto f) { if (std::string(f.name()) == "t") { auto* x = f.template get<a_rt>(); VF_CHECK(x && x->s == "run", "runtime-attr", "t"); } }); break; }
    case 4: { auto o = std::make_unique<der1>(); o->b1 = n(); o->d = n(); check_both(*o, {R("b1", o->b1), R("b2", o->b2, {7}), R("d", o->d)}, "der1"); check_write(r, *o, [](der1& t) { return std::vector<std::string>{S(t.b1), t.b2, S(t.d)}; }, "der1"); break; }
    case 5: { auto o = std::make_unique<der2>(); o->b1 = n(); o->x = 1; o->y = 'c'; o->e = n(); check_both(*o, {R("b1", o->b1), R("b2", o->b2, {7}), R("x", o->x), R("y", o->y), R("e", o->e, {3}), R("f", o->f)}, "der2");
        check_write(r, *o, [](der2& t) { return std::vector<std::string>{S(t.b1), t.b2, S(t.x), S((int)t.y), S(t.e), S(t.f.size())}; }, "der2"); break; }
    case 6: { auto o = std::make_unique<der3>(); check_both(*o, {R("b1", o->b1), R("b2", o->b2, {7}), R("d", o->d), R("nested", o->nested), R("last", o->last)}, "der3"); break; }
    case 7: { auto o = std::make_unique<sibling>(); check_both(*o, {R("x", o->x), R("y", o->y), R("own", o->own)}, "sibling"); break; }
    case 8: { auto o = std::make_unique<priv>(); check_both(*o, {{"s1", o->p1(), sizeof(int), {}, nullptr, -1}, {"s2", o->p2(), sizeof(std::string), {}, "z", -1}}, "priv"); break; }
    case 9: { auto o = std::make_unique<privd>(); check_both(*o, {{"s1", o->p1(), sizeof(int), {}, nullptr, -1}, {"s2", o->p2(), sizeof(std::string), {}, "z", -1}, {"z", o->pz(), sizeof(long), {}, nullptr, -1}}, "privd"); break; }
    case 10: { int tgt = n(); auto o = std::make_unique<acc>(acc{{1, 2}, tgt, 3}); check_both(*o, {R("u", o->in.u), R("ref", tgt), R("in", o->in)}, "acc"); break; }
    case 11: case 12: { auto o = std::make_unique<big>(); int* p = &o->f0; rows w; const char* pre = "fgh"; static std::vector<std::string> names; if (names.empty()) for (int i = 0; i < 30; ++i) names.push_back(std::string(1, pre[i / 10]) + std::to_string(i % 10));
        for (int i = 0; i < 30; ++i) { p[i] = n(); w.push_back({names[i].c_str(), p + i, sizeof(int), {}, nullptr, -1}); } check_both(*o, w, "big");
        check_write(r, *o, [](big& t) { std::vector<std::string> v; int* q = &t.f0; for (int i = 0; i < 30; ++i) v.push_back(S(q[i])); return v; }, "big"); break; }
    case 13: { auto o = std::make_unique<arrays>(); check_object<arrays>(*o, {R("a", o->a), R("b", o->b), R("c", o->c), R("k", o->k)}, "arrays"); check_object<const arrays>(*o, {R("a", o->a), R("b", o->b), R("c", o->c), R("k", o->k)}, "arrays"); break; }
    case 14: { // two objects of one type never mix, and names are right
        auto a = std::make_unique<three>(three{1, true, 2.0}), b = std::make_unique<three>(three{3, false, 4.0}); check_both(*a, {R("i", a->i), R("b", a->b), R("d", a->d)}, "pairA"); check_both(*b, {R("i", b->i), R("b", b->b), R("d", b->d)}, "pairB");
        VF_CHECK(kl::ctti::name<three>() == "ct::three" && kl::ctti::name<const three&>() == "ct::three" && kl::ctti::name<int>() == "int", "type-name", kl::ctti::name<three>());
        VF_CHECK(!kl::ctti::is_reflectable_v<not_reflected> && !kl::ctti::is_reflectable_v<int> && kl::ctti::is_reflectable_v<der2>, "is_reflectable", "types"); break; }
    case 15: { auto o = std::make_unique<manyattr>(manyattr{n(), n(), "m", 'c', n()});
        check_both(*o, {R("m0", o->m0, {8}), R("m1", o->m1, {9}, "late"), R("m2", o->m2, {1, 2, 3, 4}, "end", 6), R("m3", o->m3, {}, nullptr, 2), R("m4", o->m4, {0, -2, -3}, "", 0)}, "manyattr");
        const std::size_t total[] = {3, 5, 8, 2, 7}; const int a3s[] = {1, 1, 3, -1, 0}; const int a4s[] = {'x', 'y', -1, 'z', 0}; std::size_t i = 0;
        auto all = [&](auto f) { std::size_t k = 0; std::string order; f.visit_attributes([&](const auto& a) { ++k; using A = std::decay_t<decltype(a)>; order += std::is_same_v<A, a1> ? '1' : std::is_same_v<A, a2> ? '2' : std::is_same_v<A, a3> ? '3' : std::is_same_v<A, a4> ? '4' : std::is_same_v<A, a_rt> ? 'r' : 'b'; });
            static const char* const want[] = {"341", "33241", "1111r3b2", "4b", "1b23411"};
            VF_CHECK(i < 5 && k == total[i] && order == want[i], "attributes", f.name() << " has " << k << " attributes: " << order);
            auto* p3 = f.template get<a3>(); auto* p4 = f.template get<a4>(); VF_CHECK((p3 ? p3->z : -1) == a3s[i] && (p4 ? (int)p4->c : -1) == a4s[i] && f.template has<a3>() == !!p3 && f.template has<a4>() == !!p4, "get", f.name()); ++i; };
        kl::ctti::reflect_object(*o, all); i = 0; kl::ctti::reflect_object(std::as_const(*o), all); i = 0; kl::ctti::reflect_type<manyattr>(all); i = 0;
        kl::ctti::reflect_type<manyattr, kl::ctti::any_attribute_filter<a4, a1>>([&](auto f) { static const char* const want[] = {"41", "41", "1111", "4", "1411"}; std::string order; f.visit_attributes([&](const auto& a) { order += std::is_same_v<std::decay_t<decltype(a)>, a1> ? '1' : std::is_same_v<std::decay_t<decltype(a)>, a4> ? '4' : '?'; }); VF_CHECK(order == want[i], "filter2", f.name() << " " << order); ++i; }); break; }
    case 16: { auto o = std::make_unique<lv4>(); o->b1 = n(); o->l1 = n(); o->l2 = 'c'; o->l3 = .5; o->l3b = n(); check_both(*o, {R("b1", o->b1), R("b2", o->b2, {7}), R("l1", o->l1, {11}, "l"), R("l2", o->l2), R("l3", o->l3), R("l3b", o->l3b, {12}), R("l4", o->l4, {}, nullptr, 4)}, "lv4");
        check_write(r, *o, [](lv4& t) { return std::vector<std::string>{S(t.b1), t.b2, S(t.l1), S((int)t.l2), S(t.l3), S(t.l3b), t.l4}; }, "lv4"); break; }
    case 17: { auto o = std::make_unique<multi>(); o->b1 = n(); o->l1 = n(); o->x = .5; o->y = 'y'; o->t1 = n(); o->t2 = 3; o->own = n(); check_both(*o, {R("b1", o->b1), R("b2", o->b2, {7}), R("l1", o->l1, {11}, "l"), R("x", o->x), R("y", o->y), R("t1", o->t1), R("t2", o->t2, {}, "t"), R("own", o->own, {5})}, "multi");
        check_write(r, *o, [](multi& t) { return std::vector<std::string>{S(t.b1), t.b2, S(t.l1), S(t.x), S((int)t.y), S(t.t1), S(t.t2), S(t.own)}; }, "multi"); break; }
    case 18: { auto o = std::make_unique<wider>(); int* p = &o->w0; rows w; static std::vector<std::string> names; if (names.empty()) for (int i = 0; i < 40; ++i) names.push_back(std::string(1, "wxyz"[i / 10]) + std::to_string(i % 10));
        for (int i = 0; i < 40; ++i) { p[i] = n(); w.push_back({names[i].c_str(), p + i, sizeof(int), i == 7 ? std::vector<int>{7} : i == 32 ? std::vector<int>{32, 33} : std::vector<int>{}, i == 16 ? "x6" : nullptr, i == 39 ? 39 : -1}); }
        w.push_back(R("last", o->last)); o->last = n(); check_object<const wider>(*o, w, "wider"); check_write(r, *o, [](wider& t) { std::vector<std::string> v; int* q = &t.w0; for (int i = 0; i < 40; ++i) v.push_back(S(q[i])); v.push_back(S(t.last)); return v; }, "wider"); break; }
    case 19: { auto o = std::make_unique<mixattr>(mixattr{n(), n(), n(), n(), "s"});
        check_both(*o, {R("k0", o->k0, {}, nullptr, 1), R("k1", o->k1, {}, nullptr, 3), R("k2", o->k2, {}, nullptr, 5), R("k3", o->k3, {1}, "k", 8), R("k4", o->k4, {}, nullptr, 12)}, "mixattr");
        static const int d[] = {1, 4, 5, 11, 13}, d2[] = {-1, -1, 5, 11, 13}, od[] = {-1, -1, 7, 8, 12}; std::size_t i = 0;
        static const std::vector<int> bs[] = {{1, 2}, {3, 4}, {5, 6, 7}, {8, 9, 10, 11}, {12, 13}}, ds[] = {{1}, {4}, {5, 6}, {11}, {13}};
        auto q = [&](auto f) {
            auto g = [](auto* p) { return p ? p->w : -1; };
            VF_CHECK(i < 5 && g(f.template get<a_derived>()) == d[i] && g(f.template get<a_derived2>()) == d2[i] && g(f.template get<a_otherd>()) == od[i], "get-derived", f.name());
            VF_CHECK(f.template has<a_derived>() && f.template has<a_derived2>() == (d2[i] >= 0) && f.template has<a_otherd>() == (od[i] >= 0), "has-derived", f.name());
            std::vector<int> sb, sd; f.template visit_attributes<a_base>([&](const auto& a) { sb.push_back(a.w); }); f.template visit_attributes<a_derived>([&](const auto& a) { sd.push_back(a.w); });
            VF_CHECK(sb == bs[i] && sd == ds[i], "visit-derived", f.name()); ++i; };
        kl::ctti::reflect_object(*o, q); i = 0; kl::ctti::reflect_object(std::as_const(*o), q); i = 0; kl::ctti::reflect_type<mixattr>(q); i = 0;
        kl::ctti::reflect_type<mixattr, kl::ctti::any_attribute_filter<a_base>>(q); i = 0;
        kl::ctti::reflect_type<mixattr, kl::ctti::any_attribute_filter<a_derived>>([&](auto f) { std::vector<int> s; f.visit_attributes([&](const auto& a) { s.push_back(a.w); }); auto* p = f.template get<a_base>(); VF_CHECK(i < 5 && s == ds[i] && p && p->w == d[i], "filter-derived", f.name()); ++i; });
        vf::count("ev.derived_attributes"); break; }
    default: tuples(r);
    }
    vf::seen(vf::mix(hv)); // type and the values generated for it
}
int main(int c, char** v) { return vf::run(c, v, one); }

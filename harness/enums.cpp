// C20: enum reflection and ranges against literal tables. C21: enum_set and mask operators against bit-position sets.
#include "vf.hpp"
#include <algorithm>
#include <limits>
#include <memory>
#include <optional>
#include "kl/enum_range.hpp"
#include "kl/enum_reflector.hpp"
#include "kl/enum_set.hpp"
#include "kl/enum_traits.hpp"
using vf::rng;

namespace en {
enum class plain { zero, one, two, three };
KL_REFLECT_ENUM(plain, zero, one, two, three)
enum class renamed : std::uint8_t { a, ab, abc, b, none };
KL_REFLECT_ENUM(renamed, a, (ab, Ab), (abc, abc_long_name_here), (b, a_), (none, 0))
enum class sparse : std::int8_t { lo = -128, minus = -1, zero = 0, seven = 7, hi = 127 };
KL_REFLECT_ENUM(sparse, lo, minus, (zero, nil), seven, hi)
enum class unsorted { a = 0, c = 2, b = 1, d = 3 };
KL_REFLECT_ENUM(unsorted, a, c, b, d)
enum uns { uns_x, uns_y = 5, uns_z };
KL_REFLECT_ENUM(uns, uns_x, (uns_y, Y), uns_z)
enum class wide : std::uint64_t { small = 1, big = 0xffffffffffffffffull, mid = 0x100000000ull };
KL_REFLECT_ENUM(wide, small, big, mid)
enum class swide : std::int64_t { lo = INT64_MIN, z = 0, hi = INT64_MAX };
KL_REFLECT_ENUM(swide, lo, z, hi)
enum class dup { a = 0, a2 = 0, c = 2 };
KL_REFLECT_ENUM(dup, a, a2, c)
enum class dup2 { a = 0, b = 1, b2 = 1, d = 3, e = 4 };
KL_REFLECT_ENUM(dup2, a, b, b2, d, (e, E))
enum class single { only };
KL_REFLECT_ENUM(single, only)
enum class single5 { only = 5 };
KL_REFLECT_ENUM(single5, (only, five))
enum class flag : bool { no, yes };
KL_REFLECT_ENUM(flag, no, yes)
enum class partial { a, b, c, d }; // only some reflected, in another order
KL_REFLECT_ENUM(partial, c, a)
enum class ordinary8 : std::int8_t { a, b, c };
KL_REFLECT_ENUM(ordinary8, a, b, (c, C))
enum class desc { c = 2, b = 1, a = 0 };
KL_REFLECT_ENUM(desc, c, b, a)
enum class gap1 { a = 0, b = 1, d = 3 };
KL_REFLECT_ENUM(gap1, a, b, d)
enum class neg1 : std::int16_t { m = -1, z = 0, two = 2 };
KL_REFLECT_ENUM(neg1, (m, minus_one), z, two)
enum class from1 : std::uint32_t { a = 1, b, c };
KL_REFLECT_ENUM(from1, a, (b, B), c)
enum class late { a = 0, b = 1, d = 3, c = 2, f = 5, e = 4 };
KL_REFLECT_ENUM(late, a, b, d, c, f, e)
namespace inner { enum class deep : std::uint16_t { x = 65535, y = 0, z = 256 }; KL_REFLECT_ENUM_SEQ(deep, (x)((y, why))(z)) }
#define L10(p) p##0, p##1, p##2, p##3, p##4, p##5, p##6, p##7, p##8, p##9
#define S10(p) (p##0)(p##1)(p##2)(p##3)(p##4)(p##5)(p##6)(p##7)(p##8)(p##9)
enum class many : std::uint8_t { L10(v), L10(v1), L10(v2), L10(v3), L10(v4), L10(v5), L10(v6), L10(v7), L10(v8), L10(v9) };
KL_REFLECT_ENUM_SEQ(many, S10(v)S10(v1)S10(v2)S10(v3)S10(v4)S10(v5)S10(v6)S10(v7)S10(v8)S10(v9))
} // namespace en

using table = std::vector<std::pair<__int128, std::string>>;
static table many_table() { table t; for (int i = 0; i < 100; ++i) t.emplace_back(i, "v" + std::to_string(i)); return t; }

static std::string near_miss(rng& r, const std::string& s)
{
    std::string t = s;
    switch (r.below(9))
    {
    case 0: if (!t.empty()) t.pop_back(); break;
    case 1: t += (char)('a' + r.below(26)); break;
    case 2: t += '\0'; break;
    case 3: if (!t.empty()) t[r.below(t.size())] ^= 0x20; break;
    case 4: t = " " + t; break;
    case 5: t += " "; break;
    case 6: if (!t.empty()) t.erase(0, 1); break;
    case 7: t = std::string(r.below(4), (char)('a' + r.below(3))); break;
    default: if (!t.empty()) t[r.below(t.size())] = (char)r.next();
    }
    return t;
}

template <class E> void check_enum(rng& r, const table& t, const char* unknown, const char* id)
{
    using R = kl::enum_reflector<E>;
    VF_CHECK(R::count() == t.size(), "count", id << " count " << R::count());
    auto vals = R::values(); auto cv = R::constexpr_values();
    VF_CHECK((std::size_t)vals.size() == t.size() && cv.size() == t.size(), "values-size", id);
    std::size_t i = 0;
    for (E e : vals) { VF_CHECK(i < t.size() && (__int128)kl::underlying_cast(e) == t[i].first && cv[i] == e, "values", id << " value " << i); ++i; }
    VF_CHECK(i == t.size(), "values", id << " iterated " << i);
    i = 0;
    for (auto& p : reflect_enum(kl::enum_<E>)) { VF_CHECK((__int128)kl::underlying_cast(p.value) == t[i].first && p.name == t[i].second, "pairs", id << " pair " << i); ++i; }
    auto name_of = [&](__int128 v) -> const std::string* { for (auto& p : t) if (p.first == v) return &p.second; return nullptr; };
    auto value_of = [&](const std::string& s) -> std::optional<__int128> { for (auto& p : t) if (p.second == s) return p.first; return std::nullopt; };
    auto probe_value = [&](__int128 v) {
        E e = static_cast<E>(static_cast<std::underlying_type_t<E>>(v)); v = (__int128)kl::underlying_cast(e);
        auto* n = name_of(v); std::string got = R::to_string(e), got2 = kl::to_string(e), got3 = R::to_string(e, "dflt");
        VF_CHECK(got == (n ? *n : unknown), "to_string", id << " value " << (long long)v << " -> " << got);
        VF_CHECK(got2 == got && got3 == (n ? *n : "dflt"), "to_string-forms", id << " value " << (long long)v);
        if (n) { auto back = R::from_string(got); VF_CHECK(back && *back == e, "roundtrip", id << " value " << (long long)v << " name " << got); vf::count("ev.named"); } else vf::count("ev.unnamed");
    };
    auto probe_name = [&](const std::string& s) {
        std::unique_ptr<char[]> raw(new char[s.size()]); std::memcpy(raw.get(), s.data(), s.size()); std::string_view sv{raw.get(), s.size()};
        auto w = value_of(s); auto g = R::from_string(sv); auto g2 = kl::from_string<E>(sv);
        VF_CHECK(g.has_value() == w.has_value() && (!w || (__int128)kl::underlying_cast(*g) == *w), "from_string", id << " string " << vf::jesc(s) << (g ? " accepted" : " rejected"));
        VF_CHECK(g == g2, "from_string-forms", id); vf::count(w ? "ev.known_name" : "ev.unknown_name");
    };
    for (auto& p : t) { probe_value(p.first); probe_name(p.second); }
    for (int k = 0; k < 6; ++k)
    {
        probe_name(near_miss(r, r.pick(t).second));
        __int128 v = r.coin() ? r.pick(t).first + r.range(-3, 3) : (__int128)(std::int64_t)(r.next() >> r.below(64));
        if constexpr (!std::is_same_v<std::underlying_type_t<E>, bool>) { if constexpr (std::is_convertible_v<E, int>) v = v < 0 ? 0 : v > 7 ? v % 8 : v; probe_value(v); }
    }
    vf::seen(std::string(id) + std::to_string(r.next() % 65536));
}

// ---- ranges
enum class ra { a, b, c, d, end };
enum class rb : std::int8_t { m3 = -3, m2, m1, z, p1, p2 };
enum class rc : std::uint8_t { lo = 200, hi = 255 };
enum class rd : std::uint32_t { lo = 5, hi = 0xfffffff0u };
enum class re : std::int64_t { lo = -5, hi = 100000000000ll };
enum class rf : std::uint16_t { lo = 3, hi = 9 };
enum class rg : std::int32_t { lo = -2, hi = 4 };
enum class rh : std::uint8_t { lo = 0, hi = 5 };
enum class ri : std::int16_t { lo = -4, hi = 0 };
enum class rj : std::int8_t { lo = -128, hi = 127 };
enum class rk : std::uint64_t { lo = 0, hi = 1ull << 40 };
enum rl : unsigned char { rl_lo, rl_hi = 255 };
namespace kl {
template <> struct enum_traits<ra> : enum_trait_support_range<ra, ra::a, ra::end>, enum_trait_support_indexing {};
template <> struct enum_traits<rb> : enum_trait_support_range<rb, rb::m3, rb::p2, false> {};
template <> struct enum_traits<rc> : enum_trait_support_range<rc, rc::lo, rc::hi> {};
template <> struct enum_traits<rd> : enum_trait_support_range<rd, rd::lo, rd::hi> {};
template <> struct enum_traits<re> : enum_trait_support_range<re, re::lo, re::hi> {};
template <> struct enum_traits<rf> : enum_trait_support_range<rf, rf::lo, rf::hi, false>, enum_trait_support_indexing {};
template <> struct enum_traits<rg> : enum_trait_support_range<rg, rg::lo, rg::hi, false> {};
template <> struct enum_traits<rh> : enum_trait_support_range<rh, rh::lo, rh::hi, false> {};
template <> struct enum_traits<ri> : enum_trait_support_range<ri, ri::lo, ri::hi> {};
template <> struct enum_traits<rj> : enum_trait_support_range<rj, rj::lo, rj::hi> {};
template <> struct enum_traits<rk> : enum_trait_support_range<rk, rk::lo, rk::hi> {};
template <> struct enum_traits<rl> : enum_trait_support_range<rl, rl_lo, rl_hi> {};
}
template <class E, class I> void probe_int(rng& r, __int128 lo, __int128 hi, const char* id)
{
    __int128 v;
    switch (r.below(5)) { case 0: v = lo + r.range(-2, 2); break; case 1: v = hi + r.range(-2, 2); break; case 2: v = (__int128)std::numeric_limits<I>::max() - (__int128)r.below(20); break; case 3: v = (__int128)std::numeric_limits<I>::min() + (__int128)r.below(20); break; default: v = (__int128)(I)r.next(); }
    I i = (I)v; v = (__int128)i;
    VF_CHECK(kl::enum_traits<E>::in_range(i) == (v >= lo && v < hi), "in_range-int", id << " integer " << (long long)v << " of " << sizeof(I) << " bytes, signed " << std::is_signed_v<I> << ": " << kl::enum_traits<E>::in_range(i));
    vf::count("ev.in_range");
}
template <class E> void check_range(rng& r, __int128 lo, __int128 hi, const char* id)
{
    using T = kl::enum_traits<E>; using U = std::underlying_type_t<E>;
    VF_CHECK((__int128)T::min_value() == lo && (__int128)T::max_value() == hi && (__int128)kl::underlying_cast(T::min()) == lo && (__int128)kl::underlying_cast(T::max()) == hi && T::count() == (std::size_t)(hi - lo), "bounds", id);
    for (int k = 0; k < 3; ++k)
    {
        probe_int<E, int>(r, lo, hi, id); probe_int<E, unsigned>(r, lo, hi, id); probe_int<E, long long>(r, lo, hi, id); probe_int<E, unsigned long long>(r, lo, hi, id);
        probe_int<E, signed char>(r, lo, hi, id); probe_int<E, unsigned char>(r, lo, hi, id); probe_int<E, short>(r, lo, hi, id); probe_int<E, unsigned short>(r, lo, hi, id); probe_int<E, char>(r, lo, hi, id);
        U u = r.coin() ? (U)(lo + r.range(-2, 2)) : (U)(hi + r.range(-2, 2));
        VF_CHECK(T::in_range(static_cast<E>(u)) == ((__int128)u >= lo && (__int128)u < hi), "in_range-enum", id << " value " << (long long)u);
    }
    kl::enum_range<E> rng_;
    auto b = rng_.begin(), e = rng_.end();
    __int128 n = hi - lo;
    auto at = [&](__int128 k) { return b + (std::ptrdiff_t)k; };
    VF_CHECK(e - b == (std::ptrdiff_t)n && b - e == -(std::ptrdiff_t)n && std::distance(b, e) == (std::ptrdiff_t)n, "distance", id << " end-begin " << (e - b) << " expected " << (long long)n);
    VF_CHECK(e == kl::enum_iterator<E>{}, "end", id);
    for (int k = 0; k < 4; ++k)
    {
        __int128 x = r.coin() ? (__int128)(r.next() % (std::uint64_t)(n + 1)) : (r.coin() ? 0 : n), y = r.coin() ? (__int128)(r.next() % (std::uint64_t)(n + 1)) : x;
        if (x > n) x = n; if (y > n) y = n;
        auto ix = at(x), iy = at(y);
        VF_CHECK(ix - iy == (std::ptrdiff_t)(x - y) && iy + (ix - iy) == ix && (iy - ix) + ix == iy && ix - (ix - iy) == iy, "difference", id << " positions " << (long long)x << "," << (long long)y << " difference " << (ix - iy));
        VF_CHECK((ix < iy) == (x < y) && (ix > iy) == (x > y) && (ix <= iy) == (x <= y) && (ix >= iy) == (x >= y) && (ix == iy) == (x == y) && (ix != iy) == (x != y), "order", id << " positions " << (long long)x << "," << (long long)y);
        if (x < n) { VF_CHECK((__int128)kl::underlying_cast(*ix) == lo + x && (__int128)kl::underlying_cast(b[(std::ptrdiff_t)x]) == lo + x, "deref", id);
            auto c = ix; auto old = c++; VF_CHECK(old == ix && c == at(x + 1), "postinc", id); auto d = c; auto od = d--; VF_CHECK(od == c && d == ix, "postdec", id); ++d; --d; VF_CHECK(d == ix, "incdec", id); }
        auto z = ix; z += (std::ptrdiff_t)(y - x); VF_CHECK(z == iy, "plus-assign", id); z -= (std::ptrdiff_t)(y - x); VF_CHECK(z == ix, "minus-assign", id);
        vf::count("ev.iter_pairs");
    }
    if (n <= 1000)
    {
        __int128 want = lo; for (E v : rng_) { VF_CHECK((__int128)kl::underlying_cast(v) == want, "iterate", id); ++want; } VF_CHECK(want == hi, "iterate", id << " stopped early");
        std::vector<E> viaalg(b, e); VF_CHECK(viaalg.size() == (std::size_t)n && std::is_sorted(viaalg.begin(), viaalg.end()), "algorithm", id);
        // sub-interval
        U f = (U)(lo + (__int128)r.below((std::uint64_t)n)), l = (U)(lo + (__int128)r.below((std::uint64_t)n + 1)); std::vector<__int128> seen, exp;
        kl::for_each_enum(static_cast<E>(f), static_cast<E>(l), [&](E v) { seen.push_back((__int128)kl::underlying_cast(v)); });
        for (__int128 v = f; v < (__int128)l; ++v) exp.push_back(v);
        VF_CHECK(seen == exp, "for_each", id << " visited " << seen.size() << " expected " << exp.size()); vf::count("ev.for_each");
        auto lb = std::lower_bound(b, e, static_cast<E>(f)); VF_CHECK(lb != e && kl::underlying_cast(*lb) == f, "lower_bound", id);
    }
    vf::seen(std::string(id) + std::to_string(r.next() % 65536));
}
static void indexing(rng& r)
{
    int k = (int)r.below(4); ra v = static_cast<ra>(k); VF_CHECK(+v == k, "index", "unary plus");
    auto old = v++; VF_CHECK(+old == k && +v == k + 1, "index", "post-increment"); auto& ref = ++v; VF_CHECK(&ref == &v && +v == k + 2, "index", "pre-increment");
    rf w = static_cast<rf>(65530 + r.below(5)); auto w0 = +w; ++w; VF_CHECK(+w == w0 + 1, "index", "uint16"); vf::count("ev.indexing");
}

// ---- enum_set
template <class U> struct box { enum class E : U {}; };
template <class U> using BE = typename box<U>::E;
namespace kl {
#define MASK(U) template <> struct enum_traits<BE<U>> : enum_trait_support_bitmask, enum_trait_support_bitshift {};
MASK(std::uint8_t) MASK(std::int8_t) MASK(std::uint16_t) MASK(std::int16_t) MASK(std::uint32_t) MASK(std::int32_t) MASK(std::uint64_t) MASK(std::int64_t)
}
template <class U> struct set_model
{
    using E = BE<U>; using S = kl::enum_set<E>;
    static constexpr int W = sizeof(U) * 8;
    using B = std::set<int>;
    static E en(const B& b) { std::uint64_t v = 0; for (int i : b) v |= std::uint64_t{1} << i; return static_cast<E>(static_cast<U>(v)); }
    static B bits(E e) { B b; auto u = static_cast<std::make_unsigned_t<U>>(e); for (int i = 0; i < W; ++i) if ((std::uint64_t)u >> i & 1) b.insert(i); return b; }
    static B rnd(rng& r) { B b; switch (r.below(5)) { case 0: break; case 1: b.insert((int)r.below(W)); break; case 2: for (int i = 0; i < W; ++i) b.insert(i); break; case 3: b.insert(W - 1); if (r.coin()) b.insert(0); break; default: for (int i = 0; i < W; ++i) if (r.coin()) b.insert(i); } return b; }
    static B uni(const B& a, const B& b) { B o = a; o.insert(b.begin(), b.end()); return o; }
    static B inter(const B& a, const B& b) { B o; for (int x : a) if (b.count(x)) o.insert(x); return o; }
    static B diff(const B& a, const B& b) { B o; for (int x : a) if (!b.count(x)) o.insert(x); return o; }
    static B comp(const B& a) { B o; for (int i = 0; i < W; ++i) if (!a.count(i)) o.insert(i); return o; }
    static B sym(const B& a, const B& b) { return uni(diff(a, b), diff(b, a)); }
    static void same(const S& s, const B& m, const char* what)
    {
        VF_CHECK(bits(s.value()) == m, "membership", what << " width " << W << " signed " << std::is_signed_v<U>);
        VF_CHECK(s.underlying_value() == static_cast<U>(s.value()) && static_cast<bool>(s) == !m.empty(), "accessors", what);
        for (int i = 0; i < W; ++i) { E e = en({i}); VF_CHECK(s.test(e) == (m.count(i) > 0) && s.has_any(e) == (m.count(i) > 0) && s.has_all(e) == (m.count(i) > 0), "test", what << " bit " << i << " width " << W); }
    }
    static void go(rng& r, std::string& log)
    {
        S s[3]; B m[3];
        for (int i = 0; i < 3; ++i) { same(s[i], m[i], "default"); if (r.coin()) { m[i] = rnd(r); s[i] = S{en(m[i])}; same(s[i], m[i], "construct"); } }
        for (unsigned n = 2 + (unsigned)r.below(12); n--;)
        {
            int a = (int)r.below(3), b = (int)r.below(3), c = (int)r.below(3); auto k = r.below(22); log += (char)('a' + k);
            B eb = rnd(r); E e = en(eb);
            switch (k)
            {
            case 0: s[a] = s[b] | s[c]; m[a] = uni(m[b], m[c]); break;
            case 1: s[a] = s[b] & s[c]; m[a] = inter(m[b], m[c]); break;
            case 2: s[a] = s[b] ^ s[c]; m[a] = sym(m[b], m[c]); break;
            case 3: s[a] = ~s[b]; m[a] = comp(m[b]); break;
            case 4: s[a] |= s[b]; m[a] = uni(m[a], m[b]); break;
            case 5: s[a] &= s[b]; m[a] = inter(m[a], m[b]); break;
            case 6: s[a] ^= s[b]; m[a] = sym(m[a], m[b]); break;
            case 7: s[a] = s[b] | e; m[a] = uni(m[b], eb); break;
            case 8: s[a] = e | s[b]; m[a] = uni(m[b], eb); break;
            case 9: s[a] = s[b] & e; m[a] = inter(m[b], eb); break;
            case 10: s[a] = e & s[b]; m[a] = inter(m[b], eb); break;
            case 11: s[a] = s[b] ^ e; m[a] = sym(m[b], eb); break;
            case 12: s[a] = e ^ s[b]; m[a] = sym(m[b], eb); break;
            case 13: { auto& q = (s[a] |= e); VF_CHECK(&q == &s[a], "ref", "|="); m[a] = uni(m[a], eb); break; }
            case 14: { auto& q = (s[a] &= e); VF_CHECK(&q == &s[a], "ref", "&="); m[a] = inter(m[a], eb); break; }
            case 15: { auto& q = (s[a] ^= e); VF_CHECK(&q == &s[a], "ref", "^="); m[a] = sym(m[a], eb); break; }
            case 16: s[a] &= ~S{e}; m[a] = diff(m[a], eb); break;
            case 17: s[a] = S{}; m[a].clear(); break;
            case 18: s[a] = S{s[b].value()}; m[a] = m[b]; break;
            case 19: VF_CHECK(s[a].has_any(s[b]) == !inter(m[a], m[b]).empty() && s[a].has_any(e) == !inter(m[a], eb).empty(), "has_any", "width " << W);
                     VF_CHECK(s[a].has_all(s[b]) == diff(m[b], m[a]).empty() && s[a].has_all(e) == diff(eb, m[a]).empty() && s[a].test(e) == diff(eb, m[a]).empty(), "has_all", "width " << W); vf::count("ev.queries"); break;
            case 20: // comparisons: equality is membership, < a strict total order consistent with it
                VF_CHECK((s[a] == s[b]) == (m[a] == m[b]) && (s[a] != s[b]) == (m[a] != m[b]), "equality", "width " << W);
                VF_CHECK((s[a] == e) == (m[a] == eb) && (e == s[a]) == (m[a] == eb) && (s[a] != e) == (m[a] != eb) && (e != s[a]) == (m[a] != eb), "equality-enum", "width " << W);
                VF_CHECK((int)(s[a] < s[b]) + (int)(s[b] < s[a]) + (int)(s[a] == s[b]) == 1, "trichotomy", "width " << W);
                VF_CHECK((s[a] < s[b]) == (s[a].underlying_value() < s[b].underlying_value()) && (s[a] < e) == (s[a].underlying_value() < static_cast<U>(e)) && (e < s[a]) == (static_cast<U>(e) < s[a].underlying_value()), "less", "width " << W);
                vf::count("ev.compares"); break;
            default: // operators on the bare enum
            {
                B fb = rnd(r); E f = en(fb);
                VF_CHECK(bits(e | f) == uni(eb, fb) && bits(e & f) == inter(eb, fb) && bits(e ^ f) == sym(eb, fb) && bits(~e) == comp(eb), "mask-ops", "width " << W);
                VF_CHECK(check_mask(e, f) == !inter(eb, fb).empty(), "check_mask", "width " << W);
                E g = e; g |= f; VF_CHECK(bits(g) == uni(eb, fb), "mask-assign", "|="); g = e; g &= f; VF_CHECK(bits(g) == inter(eb, fb), "mask-assign", "&="); g = e; g ^= f; VF_CHECK(bits(g) == sym(eb, fb), "mask-assign", "^=");
                // shifts, on values and amounts for which they are plain multiplications/divisions
                int top = W - 2 - (int)r.below(W - 2), sh = (int)r.below(W - 1 - top + 0 > 0 ? W - 1 - top : 1); E one = en({top}); 
                VF_CHECK(bits(one << sh) == B{top + sh}, "shl", "width " << W << " bit " << top << " by " << sh); g = one; g <<= sh; VF_CHECK(bits(g) == B{top + sh}, "shl-assign", "width " << W);
                int down = (int)r.below(top + 1); VF_CHECK(bits(one >> down) == B{top - down}, "shr", "width " << W); g = one; g >>= down; VF_CHECK(bits(g) == B{top - down}, "shr-assign", "width " << W);
                vf::count("ev.mask_ops");
            }
            }
            same(s[a], m[a], "after operation"); vf::count("ev.set_ops");
        }
    }
};
static void one_set(rng& r, std::uint64_t idx)
{
    std::string log = std::to_string(idx % 8) + ":";
    switch (idx % 8)
    {
    case 0: set_model<std::uint8_t>::go(r, log); break; case 1: set_model<std::int8_t>::go(r, log); break;
    case 2: set_model<std::uint16_t>::go(r, log); break; case 3: set_model<std::int16_t>::go(r, log); break;
    case 4: set_model<std::uint32_t>::go(r, log); break; case 5: set_model<std::int32_t>::go(r, log); break;
    case 6: set_model<std::uint64_t>::go(r, log); break; default: set_model<std::int64_t>::go(r, log);
    }
    vf::seen(log); vf::sample(log);
}
static void one_reflect(rng& r, std::uint64_t idx)
{
    using namespace en;
    static const table many_t = many_table();
    switch (idx % 33)
    {
    case 0: check_enum<plain>(r, {{0, "zero"}, {1, "one"}, {2, "two"}, {3, "three"}}, "unknown <plain>", "plain"); break;
    case 1: check_enum<renamed>(r, {{0, "a"}, {1, "Ab"}, {2, "abc_long_name_here"}, {3, "a_"}, {4, "0"}}, "unknown <renamed>", "renamed"); break;
    case 2: check_enum<sparse>(r, {{-128, "lo"}, {-1, "minus"}, {0, "nil"}, {7, "seven"}, {127, "hi"}}, "unknown <sparse>", "sparse"); break;
    case 3: check_enum<unsorted>(r, {{0, "a"}, {2, "c"}, {1, "b"}, {3, "d"}}, "unknown <unsorted>", "unsorted"); break;
    case 4: check_enum<uns>(r, {{0, "uns_x"}, {5, "Y"}, {6, "uns_z"}}, "unknown <uns>", "uns"); break;
    case 5: check_enum<wide>(r, {{1, "small"}, {(__int128)0xffffffffffffffffull, "big"}, {(__int128)1 << 32, "mid"}}, "unknown <wide>", "wide"); break;
    case 6: check_enum<swide>(r, {{INT64_MIN, "lo"}, {0, "z"}, {INT64_MAX, "hi"}}, "unknown <swide>", "swide"); break;
    case 7: check_enum<en::dup>(r, {{0, "a"}, {0, "a2"}, {2, "c"}}, "unknown <dup>", "dup"); break;
    case 8: check_enum<en::dup2>(r, {{0, "a"}, {1, "b"}, {1, "b2"}, {3, "d"}, {4, "E"}}, "unknown <dup2>", "dup2"); break;
    case 9: check_enum<single>(r, {{0, "only"}}, "unknown <single>", "single"); break;
    case 10: check_enum<single5>(r, {{5, "five"}}, "unknown <single5>", "single5"); break;
    case 11: check_enum<flag>(r, {{0, "no"}, {1, "yes"}}, "unknown <flag>", "flag"); break;
    case 12: check_enum<partial>(r, {{2, "c"}, {0, "a"}}, "unknown <partial>", "partial"); break;
    case 13: check_enum<ordinary8>(r, {{0, "a"}, {1, "b"}, {2, "C"}}, "unknown <ordinary8>", "ordinary8"); break;
    case 14: check_enum<desc>(r, {{2, "c"}, {1, "b"}, {0, "a"}}, "unknown <desc>", "desc"); break;
    case 15: check_enum<inner::deep>(r, {{65535, "x"}, {0, "why"}, {256, "z"}}, "unknown <deep>", "deep"); break;
    case 16: check_enum<many>(r, many_t, "unknown <many>", "many"); break;
    case 17: check_range<ra>(r, 0, 4, "ra"); indexing(r); break;
    case 18: check_range<rb>(r, -3, 3, "rb"); break;
    case 19: check_range<rc>(r, 200, 255, "rc"); break;
    case 20: check_range<rd>(r, 5, 0xfffffff0ll, "rd"); break;
    case 21: check_range<re>(r, -5, 100000000000ll, "re"); break;
    case 22: check_range<rf>(r, 3, 10, "rf"); break;
    case 23: check_range<rg>(r, -2, 5, "rg"); break;
    case 29: check_enum<gap1>(r, {{0, "a"}, {1, "b"}, {3, "d"}}, "unknown <gap1>", "gap1"); break;
    case 30: check_enum<neg1>(r, {{-1, "minus_one"}, {0, "z"}, {2, "two"}}, "unknown <neg1>", "neg1"); break;
    case 31: check_enum<from1>(r, {{1, "a"}, {2, "B"}, {3, "c"}}, "unknown <from1>", "from1"); break;
    case 32: check_enum<en::late>(r, {{0, "a"}, {1, "b"}, {3, "d"}, {2, "c"}, {5, "f"}, {4, "e"}}, "unknown <late>", "late"); break;
    case 24: check_range<rh>(r, 0, 6, "rh"); break;
    case 25: check_range<ri>(r, -4, 0, "ri"); break;
    case 26: check_range<rj>(r, -128, 127, "rj"); break;
    case 27: check_range<rk>(r, 0, (__int128)1 << 40, "rk"); break;
    default: check_range<rl>(r, 0, 255, "rl"); break;
    }
}
int main(int c, char** v)
{
    bool set = false; for (int i = 1; i + 1 < c; ++i) if (std::string(v[i]) == "--mode") set = std::string(v[i + 1]) == "set";
    return vf::run(c, v, [&](rng& r, std::uint64_t i) { set ? one_set(r, i) : one_reflect(r, i); });
}

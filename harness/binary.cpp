// C16/C17: binary_reader/binary_writer against a reference codec, in exactly sized heap buffers.
#include "vf.hpp"
#include <cstdint>
#include <algorithm>
#include <cstddef>
#include <limits>
#include <memory>
#include <new>
#include "kl/binary_rw.hpp"
#include "kl/binary_rw/endian.hpp"
#include "kl/binary_rw/map.hpp"
#include "kl/binary_rw/optional.hpp"
#include "kl/binary_rw/pair.hpp"
#include "kl/binary_rw/set.hpp"
#include "kl/binary_rw/string.hpp"
#include "kl/binary_rw/variant.hpp"
#include "kl/binary_rw/vector.hpp"

// ---- allocation monitor
static std::size_t g_live, g_peak; static bool g_watch;
static void* vf_alloc(std::size_t n)
{
    if (g_watch)
    {
        g_live += n; g_peak = std::max(g_peak, g_live);
        if (n > (std::size_t{1} << 26)) throw std::bad_alloc{};
    }
    auto* p = static_cast<std::size_t*>(std::malloc(n + 16));
    if (!p) throw std::bad_alloc{};
    p[0] = g_watch ? n : 0;
    return reinterpret_cast<char*>(p) + 16;
}
static void vf_free(void* p) noexcept
{
    if (!p) return;
    auto* q = reinterpret_cast<std::size_t*>(static_cast<char*>(p) - 16);
    if (g_watch) g_live -= std::min(g_live, q[0]);
    std::free(q);
}
void* operator new(std::size_t n) { return vf_alloc(n); }
void* operator new[](std::size_t n) { return vf_alloc(n); }
void operator delete(void* p) noexcept { vf_free(p); }
void operator delete[](void* p) noexcept { vf_free(p); }
void operator delete(void* p, std::size_t) noexcept { vf_free(p); }
void operator delete[](void* p, std::size_t) noexcept { vf_free(p); }

using vf::rng;
using bytes = std::string;
using chunks = std::vector<bytes>; // units the stream moves as a whole
struct cur { const bytes& b; std::size_t pos; bool err; };

enum class e8 : std::uint8_t { a = 0, b = 1, z = 255 };
enum class e32 : std::int32_t { n = -5, p = 70000 };
struct pod { std::uint8_t a; std::uint8_t b[3]; std::int32_t c; };

template <class T, class = void> struct codec;
template <class T> using is_prim = std::bool_constant<std::is_arithmetic_v<T> || std::is_enum_v<T>>;

template <class T> struct codec<T, std::enable_if_t<is_prim<T>::value>>
{
    static void gen(rng& r, T& v)
    {
        std::uint64_t x = r.chance(1, 4) ? (r.coin() ? 0 : ~0ull) : r.next();
        if (r.chance(1, 4)) x >>= 56;
        std::memcpy(&v, &x, sizeof(T));
    }
    static void enc(chunks& c, const T& v) { c.emplace_back(reinterpret_cast<const char*>(&v), sizeof(T)); }
    static void dec(cur& c, T& v)
    {
        if (c.err || c.b.size() - c.pos < sizeof(T)) { c.err = true; return; }
        std::memcpy(&v, c.b.data() + c.pos, sizeof(T)); c.pos += sizeof(T);
    }
};
static bytes le32(std::uint32_t v) { return bytes(reinterpret_cast<const char*>(&v), 4); }
static std::uint32_t dec_count(cur& c) { std::uint32_t n = 0; codec<std::uint32_t>::dec(c, n); return c.err ? 0 : n; }
static bool g_big; // the next collection generated is a large one: around the limits of 8- and 16-bit counts
static std::size_t big(rng& r) { static const unsigned m[] = {255, 256, 257, 300, 32767, 32768, 65535, 65536, 65537, 70000}; g_big = false; return r.pick(m); }
static std::size_t small(rng& r) { if (g_big) return big(r); static const unsigned m[] = {1, 2, 3, 5, 9, 20}; return r.below(r.pick(m)); }

template <> struct codec<bytes>
{
    static void gen(rng& r, bytes& s) { s.clear(); auto n = g_big ? big(r) : r.chance(1, 30) ? r.below(400) : small(r) * 2; while (n--) s += (char)r.next(); }
    static void enc(chunks& c, const bytes& s) { c.push_back(le32(s.size())); c.push_back(s); }
    static void dec(cur& c, bytes& s)
    {
        auto n = dec_count(c); s.clear(); if (c.err) return;
        if (n > c.b.size() - c.pos) { c.err = true; return; }
        s = c.b.substr(c.pos, n); c.pos += n;
    }
};
template <class T> struct codec<std::vector<T>>
{
    static void gen(rng& r, std::vector<T>& v) { v.clear(); auto n = small(r); while (n--) { T t{}; codec<T>::gen(r, t); v.push_back(t); } }
    static void enc(chunks& c, const std::vector<T>& v)
    {
        c.push_back(le32(v.size()));
        if constexpr (is_prim<T>::value) c.emplace_back(reinterpret_cast<const char*>(v.data()), v.size() * sizeof(T));
        else for (auto& x : v) codec<T>::enc(c, x);
    }
    static void dec(cur& c, std::vector<T>& v)
    {
        auto n = dec_count(c); v.clear(); if (c.err) return;
        if constexpr (is_prim<T>::value)
        {
            if (std::uint64_t{n} * sizeof(T) > c.b.size() - c.pos) { c.err = true; return; }
            while (n--) { T t{}; codec<T>::dec(c, t); v.push_back(t); }
        }
        else while (n--) { T t{}; codec<T>::dec(c, t); if (c.err) { v.clear(); return; } v.push_back(std::move(t)); }
    }
};
template <class A, class B> struct codec<std::pair<A, B>>
{
    static void gen(rng& r, std::pair<A, B>& p) { codec<A>::gen(r, p.first); codec<B>::gen(r, p.second); }
    static void enc(chunks& c, const std::pair<A, B>& p) { codec<A>::enc(c, p.first); codec<B>::enc(c, p.second); }
    static void dec(cur& c, std::pair<A, B>& p) { codec<A>::dec(c, p.first); if (!c.err) codec<B>::dec(c, p.second); }
};
template <class K, class V> struct codec<std::map<K, V>>
{
    static void gen(rng& r, std::map<K, V>& m) { m.clear(); const bool l = g_big; auto n = small(r); const auto want = n; if (l) n *= 3; while (n-- && !(l && m.size() == want)) { K k{}; V v{}; codec<K>::gen(r, k); codec<V>::gen(r, v); m.emplace(k, v); } }
    static void enc(chunks& c, const std::map<K, V>& m) { c.push_back(le32(m.size())); for (auto& [k, v] : m) { codec<K>::enc(c, k); codec<V>::enc(c, v); } }
    static void dec(cur& c, std::map<K, V>& m)
    {
        auto n = dec_count(c); m.clear(); if (c.err) return;
        while (n--) { K k{}; V v{}; codec<K>::dec(c, k); if (!c.err) codec<V>::dec(c, v); if (c.err) { m.clear(); return; } m.emplace(std::move(k), std::move(v)); }
    }
};
template <class K> struct codec<std::set<K>>
{
    static void gen(rng& r, std::set<K>& m) { m.clear(); const bool l = g_big; auto n = small(r); const auto want = n; if (l) n *= 3; while (n-- && !(l && m.size() == want)) { K k{}; codec<K>::gen(r, k); m.insert(k); } }
    static void enc(chunks& c, const std::set<K>& m) { c.push_back(le32(m.size())); for (auto& k : m) codec<K>::enc(c, k); }
    static void dec(cur& c, std::set<K>& m)
    {
        auto n = dec_count(c); m.clear(); if (c.err) return;
        while (n--) { K k{}; codec<K>::dec(c, k); if (c.err) { m.clear(); return; } m.insert(std::move(k)); }
    }
};
template <class T> struct codec<std::optional<T>>
{
    static void gen(rng& r, std::optional<T>& o) { o.reset(); if (r.coin()) { o.emplace(); codec<T>::gen(r, *o); } }
    static void enc(chunks& c, const std::optional<T>& o) { c.push_back(bytes(1, o ? 1 : 0)); if (o) codec<T>::enc(c, *o); }
    static void dec(cur& c, std::optional<T>& o) { std::uint8_t f = 0; codec<std::uint8_t>::dec(c, f); o.reset(); if (!c.err && f) { T t{}; codec<T>::dec(c, t); o = std::move(t); } }
};
template <class... A> struct codec<std::variant<A...>>
{
    using V = std::variant<A...>;
    template <std::size_t I> static void gen_i(rng& r, V& v) { std::variant_alternative_t<I, V> t{}; codec<decltype(t)>::gen(r, t); v.template emplace<I>(std::move(t)); }
    template <std::size_t I> static void dec_i(cur& c, V& v) { std::variant_alternative_t<I, V> t{}; codec<decltype(t)>::dec(c, t); if (!c.err) v.template emplace<I>(std::move(t)); }
    template <std::size_t... I> static void gen_(rng& r, V& v, std::index_sequence<I...>) { auto k = r.below(sizeof...(A)); ((k == I ? gen_i<I>(r, v) : void()), ...); }
    template <std::size_t... I> static void dec_(cur& c, V& v, unsigned k, std::index_sequence<I...>) { if (k >= sizeof...(A)) { c.err = true; return; } ((k == I ? dec_i<I>(c, v) : void()), ...); }
    static void gen(rng& r, V& v) { gen_(r, v, std::index_sequence_for<A...>{}); }
    static void enc(chunks& c, const V& v) { c.push_back(bytes(1, (char)v.index())); std::visit([&](auto& x) { codec<std::decay_t<decltype(x)>>::enc(c, x); }, v); }
    static void dec(cur& c, V& v) { std::uint8_t k = 0; codec<std::uint8_t>::dec(c, k); if (!c.err) dec_(c, v, k, std::index_sequence_for<A...>{}); }
};
template <boost::endian::order O, class T, std::size_t N, boost::endian::align Al>
struct codec<boost::endian::endian_arithmetic<O, T, N, Al>>
{
    using E = boost::endian::endian_arithmetic<O, T, N, Al>;
    static void gen(rng& r, E& v) { T t{}; codec<T>::gen(r, t); if (N < sizeof(T) * 8) { std::make_unsigned_t<T> u = (std::make_unsigned_t<T>)t; u &= (std::make_unsigned_t<T>(1) << (N - 1)) - 1; t = (T)u; } v = t; }
    static void enc(chunks& c, const E& v)
    {
        auto t = static_cast<std::make_unsigned_t<T>>(v.value()); bytes b;
        for (std::size_t i = 0; i < N / 8; ++i) b += (char)(t >> (8 * i));
        if (O == boost::endian::order::big) std::reverse(b.begin(), b.end());
        c.push_back(b);
    }
    static void dec(cur& c, E& v)
    {
        if (c.err || c.b.size() - c.pos < N / 8) { c.err = true; return; }
        std::uint64_t t = 0;
        for (std::size_t i = 0; i < N / 8; ++i)
        {
            std::uint64_t byte = (unsigned char)c.b[c.pos + i];
            t |= byte << (8 * (O == boost::endian::order::big ? N / 8 - 1 - i : i));
        }
        if (std::is_signed_v<T> && N < 64 && (t >> (N - 1)) & 1) t |= ~0ull << N;
        v = (T)t; c.pos += N / 8;
    }
};

static bytes flat(const chunks& c) { bytes s; for (auto& x : c) s += x; return s; }
template <class T> bytes enc(const T& v) { chunks c; codec<T>::enc(c, v); return flat(c); }
template <class T> struct is_container : std::false_type {};
template <> struct is_container<bytes> : std::true_type {};
template <class T> struct is_container<std::vector<T>> : std::true_type {};
template <class T> struct is_container<std::set<T>> : std::true_type {};
template <class K, class V> struct is_container<std::map<K, V>> : std::true_type {};

struct model_writer { bytes out; std::size_t cap; bool err = false; std::size_t pos = 0;
    void put(const bytes& b) { if (err || cap - pos < b.size()) { err = true; return; } out.replace(pos, b.size(), b); pos += b.size(); }
    void skip(std::ptrdiff_t o) { if (err) return; if (o > 0 ? (std::uint64_t)o > cap - pos : (unsigned __int128)(-(__int128)o) > pos) { err = true; return; } pos += o; } };

struct type_ops
{
    const char* name;
    // writes a random value to both; returns nothing
    void (*write)(rng&, kl::binary_writer&, model_writer&);
    void (*read)(rng&, kl::binary_reader&, cur&, std::string& log);
    void (*encode)(rng&, bytes&);
};
template <class T> void do_write(rng& r, kl::binary_writer& w, model_writer& m)
{
    T v{}; codec<T>::gen(r, v);
    chunks c; codec<T>::enc(c, v);
    if constexpr (is_prim<T>::value) { if (r.coin()) w << v; else { bool ok = w.write_raw(v); m.put(c[0]); VF_CHECK(ok == !m.err, "write-result", "write_raw"); return; } }
    else w << v;
    for (auto& x : c) m.put(x);
}
template <class T> void do_read(rng& r, kl::binary_reader& rd, cur& m, std::string& log)
{
    T v{}, ref{};
    if (r.coin()) { rng q = r; codec<T>::gen(r, v); ref = v; (void)q; } // stale destination
    bool pre = m.err; bytes before;
    unsigned how = r.below(3);
    if constexpr (is_prim<T>::value)
    {
        if (r.chance(1, 5)) // peek never moves and never sets the error
        {
            cur m2{m.b, m.pos, m.err}; codec<T>::dec(m2, ref);
            auto p0 = rd.pos(); bool e0 = rd.err();
            bool ok = rd.peek(v);
            VF_CHECK(rd.pos() == p0 && rd.err() == e0, "peek-moves", "peek changed the stream");
            VF_CHECK(ok == !m2.err, "peek-result", "peek returned " << ok);
            if (ok) VF_CHECK(enc(v) == enc(ref), "peek-value", "peeked value differs");
            T pv = rd.template peek<T>(); VF_CHECK(rd.pos() == p0 && rd.err() == e0 && enc(pv) == enc(ok ? ref : T{}), "peek-value", "peek<T>() differs");
            vf::count("op.peek");
        }
        if (r.chance(1, 4)) how = 3;
    }
    if (!pre) codec<T>::dec(m, ref);
    bool ok = true;
    switch (how)
    {
    case 0: rd >> v; ok = !rd.err(); break;
    case 1: ok = rd.read(v); break;
    case 2: v = rd.template read<T>(); ok = !rd.err(); break;
    default: if constexpr (is_prim<T>::value) ok = rd.read_raw(v);
    }
    VF_CHECK(ok == !m.err, "read-result", "ok=" << ok << " expected " << !m.err << " log " << log);
    if (ok && !m.err) VF_CHECK(enc(v) == enc(ref), "read-value", "value read differs from the reference decoding; how=" << how << " log " << log);
    if constexpr (is_container<T>::value)
        if (!ok && !pre) VF_CHECK(v.empty(), "failed-container", "container not empty after a failed read; log " << log);
}
template <class T> void do_encode(rng& r, bytes& out) { T v{}; codec<T>::gen(r, v); out += enc(v); }
template <class T> type_ops ops(const char* n) { return {n, do_write<T>, do_read<T>, do_encode<T>}; }
namespace be = boost::endian;
static const type_ops TYPES[] = {
    ops<std::uint8_t>("u8"), ops<std::int16_t>("i16"), ops<std::uint32_t>("u32"), ops<std::int64_t>("i64"),
    ops<float>("f32"), ops<double>("f64"), ops<char>("char"), ops<e8>("e8"), ops<e32>("e32"),
    ops<be::big_uint32_t>("be_u32"), ops<be::big_int64_t>("be_i64"), ops<be::little_int16_t>("le_i16"), ops<be::big_int24_t>("be_i24"), ops<be::little_uint64_t>("le_u64"),
    ops<bytes>("string"), ops<std::vector<std::uint8_t>>("vec<u8>"), ops<std::vector<std::uint16_t>>("vec<u16>"), ops<std::vector<double>>("vec<f64>"), ops<std::vector<e32>>("vec<e32>"),
    ops<std::vector<bytes>>("vec<string>"), ops<std::vector<std::vector<std::int16_t>>>("vec<vec<i16>>"),
    ops<std::vector<std::pair<std::uint8_t, bytes>>>("vec<pair<u8,string>>"), ops<std::vector<std::optional<std::uint32_t>>>("vec<opt<u32>>"),
    ops<std::pair<std::uint8_t, std::uint32_t>>("pair<u8,u32>"), ops<std::pair<bytes, std::vector<std::uint8_t>>>("pair<string,vec>"),
    ops<std::map<std::uint8_t, bytes>>("map<u8,string>"), ops<std::map<bytes, std::vector<std::int32_t>>>("map<string,vec>"), ops<std::map<std::int16_t, std::map<std::uint8_t, std::uint8_t>>>("map<i16,map>"),
    ops<std::map<std::uint32_t, char>>("map<u32,char>"), ops<std::set<std::pair<std::uint16_t, std::uint8_t>>>("set<pair>"), ops<std::set<std::int16_t>>("set<i16>"), ops<std::set<bytes>>("set<string>"), ops<std::set<std::uint64_t>>("set<u64>"),
    ops<std::optional<std::uint16_t>>("opt<u16>"), ops<std::optional<bytes>>("opt<string>"), ops<std::optional<std::vector<std::optional<bytes>>>>("opt<vec<opt<string>>>"),
    ops<std::variant<std::uint8_t, bytes, std::vector<std::uint16_t>, double>>("var4"), ops<std::variant<bytes>>("var1"),
    ops<std::vector<std::variant<std::uint32_t, bytes>>>("vec<var2>"), ops<std::vector<be::big_uint16_t>>("vec<be16>"), ops<std::optional<be::big_int32_t>>("opt<be32>"),
    ops<std::pair<std::optional<std::uint8_t>, std::variant<e8, std::set<std::uint8_t>>>>("pair<opt,var>"),
};
constexpr std::size_t NT = sizeof(TYPES) / sizeof(TYPES[0]);

static std::ptrdiff_t gen_skip(rng& r, std::size_t size)
{
    switch (r.below(8))
    {
    case 0: return PTRDIFF_MIN + (std::ptrdiff_t)r.below(3);
    case 1: return PTRDIFF_MAX - (std::ptrdiff_t)r.below(3);
    case 2: return (std::ptrdiff_t)size * (r.coin() ? 1 : -1);
    case 3: return (std::ptrdiff_t)(r.next() >> r.below(60)) * (r.coin() ? 1 : -1);
    default: return r.range(-(std::int64_t)std::min<std::size_t>(size, 12) - 1, std::min<std::size_t>(size, 12) + 1);
    }
}
struct exact { std::unique_ptr<std::byte[]> p; std::size_t n; std::byte* data() { return n ? p.get() : nullptr; }
    explicit exact(const bytes& b) : p(b.empty() ? nullptr : new std::byte[b.size()]), n(b.size()) { if (n) std::memcpy(p.get(), b.data(), n); } };

static std::size_t session_write(rng r, std::size_t cap, std::string& log)
{
    bytes fill(cap, 0); { rng f{r.s}; for (auto& c : fill) c = (char)f.next(); }
    exact buf{fill};
    model_writer m{fill, cap};
    kl::binary_writer w{gsl::span<std::byte>{buf.data(), cap}};
    auto n = 1 + r.below(10);
    log += "W" + std::to_string(cap) + ":";
    for (unsigned i = 0; i < n; ++i)
    {
        auto k = r.below(20);
        if (k == 0) { auto o = gen_skip(r, cap); w.skip(o); m.skip(o); log += " skip"; vf::count("op.wskip"); }
        else if (k == 1 && r.chance(1, 4)) { w.notify_error(); m.err = true; log += " err"; }
        else if (k == 2) { pod p[3]; for (auto& x : p) { std::memset(&x, (int)r.below(256), sizeof x); }
            auto cnt = r.below(4); bytes raw(reinterpret_cast<char*>(p), cnt * sizeof(pod)); w.write_span(gsl::span<const pod>{p, cnt}); m.put(raw); log += " span"; }
        else if (k == 3) { pod p; std::memset(&p, (int)r.below(256), sizeof p); bool ok = w.write_raw(p); m.put(bytes(reinterpret_cast<char*>(&p), sizeof p)); VF_CHECK(ok == !m.err, "write-result", log); log += " raw"; }
        else if (k == 4) { std::uint16_t a[5]; for (auto& x : a) x = (std::uint16_t)r.next(); auto cnt = r.below(6); w << gsl::span<const std::uint16_t>{a, cnt}; m.put(bytes(reinterpret_cast<char*>(a), cnt * 2)); log += " span16"; }
        else { auto& t = TYPES[r.below(NT)]; log += std::string(" ") + t.name; t.write(r, w, m); }
        VF_CHECK(w.err() == m.err, "write-err", "err=" << w.err() << " log " << log);
        VF_CHECK(w.pos() == m.pos && w.left() == cap - m.pos && w.empty() == (m.pos == cap), "write-pos", "pos " << w.pos() << " expected " << m.pos << " left " << w.left() << " log " << log);
        VF_CHECK(cap == 0 || std::memcmp(buf.data(), m.out.data(), cap) == 0, "write-bytes", "buffer contents differ from the reference encoding; log " << log);
    }
    if (m.err) vf::count("ev.write_overflow"); else vf::count("ev.write_ok");
    if (!m.err && m.pos == cap) vf::count("ev.exact_fit");
    return m.pos;
}

static void session_read(rng& r, const bytes& input, const std::vector<unsigned>& plan, std::string& log, bool expect_all)
{
    exact buf{input};
    cur m{input, 0, false};
    kl::binary_reader rd{gsl::span<const std::byte>{buf.data(), buf.n}};
    log += " R" + std::to_string(input.size()) + ":";
    g_live = g_peak = 0; g_watch = true;
    try
    {
        std::size_t steps = expect_all ? plan.size() : 1 + r.below(10);
        for (std::size_t i = 0; i < steps; ++i)
        {
            auto k = expect_all ? 99 : r.below(24);
            if (k == 0) { auto o = gen_skip(r, input.size()); model_writer s{{}, input.size()}; s.pos = m.pos; s.err = m.err; rd.skip(o); s.skip(o); m.pos = s.pos; m.err = s.err; log += " skip"; vf::count("op.rskip"); }
            else if (k == 1)
            {
                std::size_t cnt = r.chance(1, 6) ? r.next() : r.chance(1, 6) ? SIZE_MAX - r.below(m.pos + 3) : r.below(input.size() + 3); bool move = r.coin();
                auto sp = move && r.coin() ? rd.span(cnt) : rd.span(cnt, move);
                if (cnt > input.size() - m.pos) m.err = true;
                if (m.err) VF_CHECK(sp.size() == 0, "span-fail", "span not empty");
                else { VF_CHECK(sp.size() == cnt && (cnt == 0 || sp.data() == buf.data() + m.pos), "span-view", "span is not the next bytes; log " << log); if (move) m.pos += cnt; }
                log += " view";
            }
            else if (k == 2)
            {
                std::vector<std::uint16_t> a(r.below(5), 0xAAAA); auto ref = a;
                bytes before(reinterpret_cast<char*>(a.data()), a.size() * 2);
                bool fits = !m.err && a.size() * 2 <= input.size() - m.pos;
                if (r.coin()) rd.read_span(gsl::span<std::uint16_t>{a}); else rd >> gsl::span<std::uint16_t>{a};
                if (fits) { VF_CHECK(a.empty() || std::memcmp(a.data(), input.data() + m.pos, a.size() * 2) == 0, "span-value", log); m.pos += a.size() * 2; }
                else { m.err = true; VF_CHECK(a.empty() || std::memcmp(a.data(), before.data(), before.size()) == 0, "span-partial", "failed read changed its destination"); }
                log += " rspan";
            }
            else if (k == 3 && r.chance(1, 4)) { rd.notify_error(); m.err = true; log += " err"; }
            else { auto& t = TYPES[expect_all ? plan[i] : plan.empty() || r.chance(1, 3) ? r.below(NT) : plan[std::min(i, plan.size() - 1)]]; log += std::string(" ") + t.name; t.read(r, rd, m, log); }
            VF_CHECK(rd.err() == m.err, "read-err", "err=" << rd.err() << " expected " << m.err << " log " << log);
            VF_CHECK(rd.pos() == m.pos && rd.left() == input.size() - m.pos && rd.empty() == (m.pos == input.size()), "read-pos", "pos " << rd.pos() << " expected " << m.pos << " log " << log);
        }
    }
    catch (const std::exception& e) { g_watch = false; vf::fail("read-exception", std::string("reading raised ") + e.what() + " log " + log); throw vf::abort_case{}; }
    g_watch = false;
    if (expect_all) VF_CHECK(!m.err && m.pos == input.size() && rd.empty() && !rd.err(), "roundtrip-consumed", "not everything consumed; log " << log);
    // what the harness itself allocates (reference values, logs, encodings) is proportional to the input too
    VF_CHECK(g_peak <= 200000 + 2000 * input.size(), "memory", "peak allocation " << g_peak << " for an input of " << input.size() << " bytes; log " << log);
    vf::count(m.err ? "ev.read_error" : "ev.read_ok");
    vf::count("ev.peak_kb", g_peak / 1024);
}

static void one(rng& r, std::uint64_t idx)
{
    std::string log;
    switch (idx % 4)
    {
    case 0: // round trip of a value sequence through real writer and real reader
    {
        std::vector<unsigned> plan(1 + r.below(8)); for (auto& p : plan) p = (unsigned)r.below(NT);
        const bool large = r.chance(1, 150);
        if (large) { plan.resize(1 + r.below(2)); g_big = true; vf::count("ev.large"); }
        const std::size_t room = large ? 1 << 22 : 1 << 16;
        model_writer m{bytes(room, 0), room};
        bytes store(room, 0); exact buf{store};
        kl::binary_writer w{gsl::span<std::byte>{buf.data(), buf.n}};
        for (auto p : plan) { log += std::string(" ") + TYPES[p].name; TYPES[p].write(r, w, m); }
        g_big = false;
        VF_CHECK(!w.err() && w.pos() == m.pos, "write-pos", log);
        VF_CHECK(std::memcmp(buf.data(), m.out.data(), m.pos) == 0, "write-bytes", "encoding differs; log " << log);
        bytes enc(reinterpret_cast<char*>(buf.data()), w.pos());
        session_read(r, enc, plan, log, true);
        vf::count("ev.roundtrip");
        if (enc.size() > 8) // systematic truncation of the same stream
        {
            auto cut = r.below(enc.size()); std::string l2 = log + " cut" + std::to_string(cut);
            session_read(r, enc.substr(0, cut), plan, l2, false);
            vf::count("ev.truncated");
        }
        break;
    }
    case 1: // learn how much room the sequence takes, then give it exactly that, one byte less or more, or any size
    {
        const rng r0 = r;
        std::size_t need = session_write(r0, 1 << 15, log);
        log.clear();
        std::size_t cap = r.chance(1, 3) ? r.below(need + 2) : need - (need && r.coin());
        session_write(r0, cap, log);
        break;
    }
    case 2: // hostile: valid encodings, mutated
    {
        std::vector<unsigned> plan(1 + r.below(4)); bytes b;
        for (auto& p : plan) { p = (unsigned)r.below(NT); TYPES[p].encode(r, b); }
        static const std::uint32_t evil[] = {0xffffffffu, 0x80000000u, 0x7fffffffu, 0x40000000u, 0x20000001u, 0x10000000u, 0x01000000u, 256, 17, 3, 1, 0};
        for (auto n = 1 + r.below(4); n-- && !b.empty();)
        {
            auto at = r.chance(1, 3) ? 0 : r.below(b.size());
            switch (r.below(4))
            {
            case 0: b[at] = (char)r.next(); break;
            case 1: if (b.size() - at >= 4) { auto e = le32(r.pick(evil)); b.replace(at, 4, e); } break;
            case 2: b.resize(r.below(b.size() + 1)); break;
            default: b.insert(at, 1, (char)r.next()); break;
            }
        }
        session_read(r, b, plan, log, false); vf::count("ev.hostile"); break;
    }
    default: // random bytes
    {
        bytes b(r.below(60), 0); for (auto& c : b) c = r.chance(2, 3) ? (char)r.below(4) : (char)r.next();
        session_read(r, b, {}, log, false); vf::count("ev.random_bytes");
    }
    }
    vf::seen(log); vf::sample(log);
}
int main(int c, char** v) { return vf::run(c, v, one); }

// Reference model of the serialization rules, independent of kl's implementation: an own document
// type J with own parser/writer, and gen/enc/dec/patch/eq interpreters driven by hand-written field
// tables D<T> (never by kl's reflection).
#pragma once
#include "vf.hpp"
#include "kl/enum_set.hpp"
#include <array>
#include <cmath>
#include <deque>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <tuple>
#include <unordered_map>
#include <variant>
#include <vector>

namespace jm {
using vf::rng;
using i128 = __int128;

// ---------------------------------------------------------------- documents
struct J
{
    enum kind { Null, Bool, Int, Dbl, Str, Arr, Obj } k = Null;
    bool b = false; i128 i = 0; double d = 0; std::string s;
    std::vector<J> a; std::vector<std::pair<std::string, J>> o;
    static J null() { return {}; }
    static J boolean(bool v) { J j; j.k = Bool; j.b = v; return j; }
    static J integer(i128 v) { J j; j.k = Int; j.i = v; return j; }
    static J real(double v) { J j; j.k = Dbl; j.d = v; return j; }
    static J str(std::string v) { J j; j.k = Str; j.s = std::move(v); return j; }
    static J arr() { J j; j.k = Arr; return j; }
    static J obj() { J j; j.k = Obj; return j; }
    const J* find(std::string_view key) const { for (auto& m : o) if (m.first == key) return &m.second; return nullptr; }
};
inline std::string i2s(i128 v) { if (v == 0) return "0"; bool n = v < 0; unsigned __int128 u = n ? -(unsigned __int128)v : (unsigned __int128)v; std::string s; while (u) { s.insert(s.begin(), char('0' + (int)(u % 10))); u /= 10; } return n ? "-" + s : s; }

inline bool close(double a, double b)
{
    if (a == b) return true;
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (std::isinf(a) || std::isinf(b)) return false;
    double m = std::max(std::fabs(a), std::fabs(b));
    return std::fabs(a - b) <= m * 4e-15 + 1e-320;
}
inline bool sameJ(const J& x, const J& y, bool exact)
{
    if (x.k != y.k) return false;
    switch (x.k)
    {
    case J::Null: return true;
    case J::Bool: return x.b == y.b;
    case J::Int: return x.i == y.i;
    case J::Dbl: return exact ? (x.d == y.d && std::signbit(x.d) == std::signbit(y.d)) : close(x.d, y.d);
    case J::Str: return x.s == y.s;
    case J::Arr: if (x.a.size() != y.a.size()) return false; for (std::size_t n = 0; n < x.a.size(); ++n) if (!sameJ(x.a[n], y.a[n], exact)) return false; return true;
    case J::Obj: if (x.o.size() != y.o.size()) return false; for (std::size_t n = 0; n < x.o.size(); ++n) if (x.o[n].first != y.o[n].first || !sameJ(x.o[n].second, y.o[n].second, exact)) return false; return true;
    }
    return false;
}
inline void quote(std::string& out, std::string_view s, rng* r = nullptr)
{
    out += '"';
    for (unsigned char c : s)
    {
        char b[16];
        if (c == '"' || c == '\\') { out += '\\'; out += (char)c; }
        else if (c < 0x20) { if (c == '\n' && (!r || r->coin())) out += "\\n"; else if (c == '\t' && (!r || r->coin())) out += "\\t"; else { std::snprintf(b, sizeof b, r && r->coin() ? "\\u%04X" : "\\u%04x", c); out += b; } }
        else if (r && c < 0x7f && r->chance(1, 40)) { std::snprintf(b, sizeof b, "\\u%04x", c); out += b; }
        else if (r && c == '/' && r->coin()) out += "\\/";
        else out += (char)c;
    }
    out += '"';
}
inline std::string dtext(double d)
{
    char b[64]; std::snprintf(b, sizeof b, "%.17g", d); std::string s = b;
    if (s.find_first_of(".eEn") == std::string::npos) s += ".0";
    return s;
}
inline void write(std::string& out, const J& j, rng* r = nullptr)
{
    auto ws = [&] { if (r && r->chance(1, 8)) out += " \n\t\r"[r->below(4)]; };
    ws();
    switch (j.k)
    {
    case J::Null: out += "null"; break;
    case J::Bool: out += j.b ? "true" : "false"; break;
    case J::Int: out += i2s(j.i); break;
    case J::Dbl: out += dtext(j.d); break;
    case J::Str: quote(out, j.s, r); break;
    case J::Arr: out += '['; for (std::size_t n = 0; n < j.a.size(); ++n) { if (n) out += ','; write(out, j.a[n], r); } ws(); out += ']'; break;
    case J::Obj: out += '{'; for (std::size_t n = 0; n < j.o.size(); ++n) { if (n) out += ','; ws(); quote(out, j.o[n].first, r); ws(); out += ':'; write(out, j.o[n].second, r); } ws(); out += '}'; break;
    }
    ws();
}
inline std::string show(const J& j) { std::string s; write(s, j); return s; }

// Strict RFC 8259 parser. `murky` is set for inputs on which implementations legitimately differ
// (lone surrogate escapes, leading byte-order mark, numbers out of double range).
struct parser
{
    std::string_view t; std::size_t p = 0; bool ok = true, murky = false; int depth = 0, max_depth = 0;
    explicit parser(std::string_view x) : t(x) { if (t.size() >= 3 && t.substr(0, 3) == "\xEF\xBB\xBF") { murky = true; p = 3; } }
    int c() const { return p < t.size() ? (unsigned char)t[p] : -1; }
    void ws() { while (c() == ' ' || c() == '\n' || c() == '\r' || c() == '\t') ++p; }
    bool lit(std::string_view w) { if (t.substr(p, w.size()) == w) { p += w.size(); return true; } ok = false; return false; }
    J document() { ws(); J j = value(); ws(); if (p != t.size()) ok = false; return j; }
    int hex4() { int v = 0; for (int k = 0; k < 4; ++k) { int h = c(); ++p; if (h >= '0' && h <= '9') h -= '0'; else if (h >= 'a' && h <= 'f') h -= 'a' - 10; else if (h >= 'A' && h <= 'F') h -= 'A' - 10; else { ok = false; return 0; } v = v * 16 + h; } return v; }
    static void utf8(std::string& o, unsigned u) { if (u < 0x80) o += (char)u; else if (u < 0x800) { o += (char)(0xC0 | u >> 6); o += (char)(0x80 | (u & 63)); } else if (u < 0x10000) { o += (char)(0xE0 | u >> 12); o += (char)(0x80 | (u >> 6 & 63)); o += (char)(0x80 | (u & 63)); } else { o += (char)(0xF0 | u >> 18); o += (char)(0x80 | (u >> 12 & 63)); o += (char)(0x80 | (u >> 6 & 63)); o += (char)(0x80 | (u & 63)); } }
    std::string string()
    {
        std::string o; ++p;
        while (ok)
        {
            int ch = c(); if (ch < 0x20) { ok = false; break; } ++p;
            if (ch == '"') return o;
            if (ch != '\\') { o += (char)ch; continue; }
            int e = c(); ++p;
            switch (e)
            {
            case '"': case '\\': case '/': o += (char)e; break;
            case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
            case 'u': { unsigned u = hex4(); if (!ok) break;
                if (u >= 0xD800 && u < 0xDC00) { if (c() == '\\' && p + 1 < t.size() && t[p + 1] == 'u') { p += 2; unsigned l = hex4(); if (!ok) break; if (l >= 0xDC00 && l < 0xE000) u = 0x10000 + ((u - 0xD800) << 10) + (l - 0xDC00); else { murky = true; } } else murky = true; }
                else if (u >= 0xDC00 && u < 0xE000) murky = true;
                utf8(o, u); break; }
            default: ok = false;
            }
        }
        return o;
    }
    J number()
    {
        std::size_t b = p; bool fl = false;
        if (c() == '-') ++p;
        if (c() == '0') ++p; else if (c() >= '1' && c() <= '9') while (c() >= '0' && c() <= '9') ++p; else { ok = false; return {}; }
        if (c() == '.') { fl = true; ++p; if (!(c() >= '0' && c() <= '9')) { ok = false; return {}; } while (c() >= '0' && c() <= '9') ++p; }
        if (c() == 'e' || c() == 'E') { fl = true; ++p; if (c() == '+' || c() == '-') ++p; if (!(c() >= '0' && c() <= '9')) { ok = false; return {}; } while (c() >= '0' && c() <= '9') ++p; }
        std::string s(t.substr(b, p - b));
        if (!fl)
        {
            bool neg = s[0] == '-'; i128 v = 0; bool big = false;
            for (std::size_t n = neg; n < s.size() && !big; ++n) { v = v * 10 + (s[n] - '0'); if (v > ((i128)1 << 64)) big = true; }
            if (neg) v = -v;
            if (!big && v <= (i128)std::numeric_limits<std::uint64_t>::max() && v >= (i128)std::numeric_limits<std::int64_t>::min()) return J::integer(v);
        }
        double d = std::strtod(s.c_str(), nullptr);
        if (std::isinf(d) || std::fabs(d) > 1.7e308) murky = true;
        return J::real(d);
    }
    J value()
    {
        J j; struct dg { parser& q; dg(parser& x) : q(x) { if (++q.depth > q.max_depth) q.max_depth = q.depth; } ~dg() { --q.depth; } } g(*this);
        if (depth > 3000) { ok = false; return j; }
        switch (c())
        {
        case 'n': lit("null"); return j;
        case 't': lit("true"); return J::boolean(true);
        case 'f': lit("false"); return J::boolean(false);
        case '"': { auto s = string(); return J::str(std::move(s)); }
        case '[':
            j.k = J::Arr; ++p; ws(); if (c() == ']') { ++p; return j; }
            while (ok) { ws(); j.a.push_back(value()); if (!ok) break; ws(); if (c() == ',') { ++p; continue; } if (c() == ']') { ++p; return j; } ok = false; }
            return j;
        case '{':
            j.k = J::Obj; ++p; ws(); if (c() == '}') { ++p; return j; }
            while (ok) { ws(); if (c() != '"') { ok = false; break; } auto key = string(); if (!ok) break; ws(); if (c() != ':') { ok = false; break; } ++p; ws(); j.o.emplace_back(std::move(key), value()); if (!ok) break; ws(); if (c() == ',') { ++p; continue; } if (c() == '}') { ++p; return j; } ok = false; }
            return j;
        default: return number();
        }
    }
};

// ---------------------------------------------------------------- declarations (hand-written tables)
template <class C, class T> struct fd
{
    const char* decl; std::string key; T C::*ptr; std::vector<std::string> al;
    bool skip_ser = false, skip_de = false, sempty = false, miss = false, flat = false, extra = false; int nul = 0; // 1 emit_null, 2 skip_if_null
    bool ro = false, sub_ro = false; std::string ckey; // resource attributes: read_only, subtree_read_only, declared name of the child key
    std::function<void(T&)> def; std::vector<std::function<std::string(const T&)>> val;
    fd& rdonly() { ro = true; return *this; }
    fd& subro() { sub_ro = true; return *this; }
    fd& keyed(const char* k) { ckey = k; return *this; }
    fd& ren(const char* k) { key = k; return *this; }
    fd& alias(std::vector<std::string> v) { al = std::move(v); return *this; }
    fd& noser() { skip_ser = true; return *this; }
    fd& node() { skip_de = true; return *this; }
    fd& emit() { nul = 1; return *this; }
    fd& ifnull() { nul = 2; return *this; }
    fd& ifempty() { sempty = true; return *this; }
    fd& missing() { miss = true; return *this; }
    fd& flatten() { flat = true; return *this; }
    fd& extras() { extra = true; return *this; }
    fd& dflt(T v) { def = [v](T& x) { x = v; }; return *this; }
    fd& check(std::function<std::string(const T&)> f) { val.push_back(std::move(f)); return *this; }
    fd& range(double lo, double hi) { return check([=](const T& x) { if constexpr (std::is_arithmetic_v<T>) { if (x < lo || x > hi) return std::string("value is outside allowed range"); } return std::string(); }); }
};
template <class C, class B, class T> fd<C, T> F(const char* n, T B::*p) { fd<C, T> f; f.decl = n; f.key = n; f.ptr = static_cast<T C::*>(p); return f; }
template <class T, class = void> struct D;            // static auto fields(); static const char* name();
template <class E> struct EN;                          // static const vector<pair<E,string>>& table()
template <class T> struct custom;                      // gen/enc/dec/patch/eq
template <class T> struct shape { static void fix(T&, rng&) {} }; // adjusts generated structs
template <class T, class = void> struct has_D : std::false_type {};
template <class T> struct has_D<T, std::void_t<decltype(D<T>::fields())>> : std::true_type {};
template <class T, class = void> struct has_EN : std::false_type {};
template <class T> struct has_EN<T, std::void_t<decltype(EN<T>::table())>> : std::true_type {};
template <class T, class = void> struct has_custom : std::false_type {};
template <class T> struct has_custom<T, std::void_t<decltype(custom<T>::gen(std::declval<rng&>(), 0))>> : std::true_type {};
template <class T> struct is_opt : std::false_type {};
template <class T> struct is_opt<std::optional<T>> : std::true_type {};
template <class T> struct is_tup : std::false_type {};
template <class... T> struct is_tup<std::tuple<T...>> : std::true_type {};
template <class A, class B> struct is_tup<std::pair<A, B>> : std::true_type {};
template <class T> struct is_arr : std::false_type {};
template <class T, std::size_t N> struct is_arr<std::array<T, N>> : std::true_type {};
template <class T> struct is_eset : std::false_type {};
template <class E> struct is_eset<kl::enum_set<E>> : std::true_type { using e = E; };
template <class T, class = void> struct is_map : std::false_type {};
template <class T> struct is_map<T, std::void_t<typename T::mapped_type>> : std::true_type {};
template <class T> const auto& fields_of() { static const auto f = D<T>::fields(); return f; }
template <class T, class Fn> void each_field(Fn fn) { std::apply([&](auto&... f) { (fn(f), ...); }, fields_of<T>()); }
template <class T> struct fd_value;
template <class C, class T> struct fd_value<fd<C, T>> { using type = T; };
template <class F_> using fv = typename fd_value<std::decay_t<F_>>::type;

inline bool& yaml_mode() { static bool y = false; return y; }

// ---------------------------------------------------------------- generation
inline std::string gen_string(rng& r)
{
    static const char* pool[] = {"", "a", "b", "x", "hello", "null", "true", "123", "-1", "1.5", "~", "key", "/", "a/b", "quote\"s", "back\\slash", "tab\there", "new\nline", "\xC3\xA9", "\xE2\x82\xAC uro", "\xF0\x9F\x98\x80", "fourteen chars", "exactly twenty-one ch", "a rather long string that certainly does not fit any small buffer at all", "red", "RED", "name", " lead", "trail ", "[", "{", ": ", "- x", "#c", "&a", "*a", "%d", "'q'"};
    if (yaml_mode()) { if (r.chance(3, 4)) return r.pick(pool); std::string s; bool ctl = r.chance(1, 3); for (auto n = r.below(12); n; --n) { if (ctl && r.chance(1, 3)) s += (char)r.below(0x20); else if (r.chance(1, 20)) s += r.pick(pool); else s += (char)r.range(0x20, 0x7e); } return s; }
    if (r.chance(1, 400)) { static const unsigned ln[] = {127, 128, 255, 256, 257, 1000, 4095, 4096, 66000}; auto n = r.pick(ln); if (n > 5000 && r.chance(3, 4)) n = 300; std::string s(n, 0); for (auto& c : s) c = (char)r.range(0x20, 0x7e); return s; }
    switch (r.below(6))
    {
    case 0: { std::string s; for (auto n = r.below(30); n; --n) s += (char)r.below(256); return s; }
    case 1: { std::string s; for (auto n = r.below(20); n; --n) s += (char)r.range(0, 0x24); return s; }
    case 2: { std::string s = r.pick(pool); s.insert(r.below(s.size() + 1), 1, '\0'); return s; }
    default: return r.pick(pool);
    }
}
inline std::string gen_key(rng& r) { if (r.chance(1, 6)) return gen_string(r); static const char* pool[] = {"a", "b", "c", "d", "k1", "k2", "zz", "id", "name", "x", "A long key that does not fit in small buffers"}; return r.pick(pool); }
inline double gen_double(rng& r)
{
    switch (r.below(6))
    {
    case 0: return (double)r.range(-1000, 1000);
    case 1: return (double)r.range(-1000000, 1000000) / 1024.0;
    case 2: { static const double p[] = {0.0, -0.0, 1.0, -1.0, 0.1, 1e-7, 1e21, 1e22, 123456789012345680.0, 5e-324, 2.2250738585072014e-308, 1e300, -1e300, 9007199254740993.0, 4294967296.0, 18446744073709551616.0, 0.30000000000000004, 3.4028234663852886e38}; return r.pick(p); }
    default: { std::uint64_t u = r.next(); double d; std::memcpy(&d, &u, 8); if (!std::isfinite(d) || std::fabs(d) > 1e305 || (d != 0 && std::fabs(d) < 1e-290)) return (double)(std::int64_t)u * 1e-3; return d; }
    }
}
template <class I> I gen_int(rng& r)
{
    using L = std::numeric_limits<I>;
    switch (r.below(5))
    {
    case 0: return L::max() - (I)r.below(2);
    case 1: return L::min() + (I)r.below(2);
    case 2: return (I)r.below(10);
    case 3: return (I)(std::is_signed_v<I> ? -(I)r.below(10) : (I)r.below(10));
    default: { // any magnitude, and just around powers of two
        auto u = r.next() >> r.below(64); if (r.chance(1, 3)) u = (std::uint64_t(1) << r.below(64)) + r.below(3) - 1; if (std::is_signed_v<I> && r.coin()) u = 0 - u; return (I)u; }
    }
}
template <class T> T gen(rng& r, int d);
template <class Tup, std::size_t... I> void gen_tup(rng& r, int d, Tup& t, std::index_sequence<I...>) { ((std::get<I>(t) = gen<std::decay_t<decltype(std::get<I>(t))>>(r, d)), ...); }
template <class T> T gen(rng& r, int d)
{
    if constexpr (has_custom<T>::value) return custom<T>::gen(r, d);
    else if constexpr (std::is_same_v<T, bool>) return r.coin();
    else if constexpr (std::is_integral_v<T>) return gen_int<T>(r);
    else if constexpr (std::is_same_v<T, float>) { double x = gen_double(r); return std::fabs(x) > 3e38 || std::fabs(x) < 1e-37 ? (float)r.range(-9, 9) / 4 : (float)x; }
    else if constexpr (std::is_floating_point_v<T>) return gen_double(r);
    else if constexpr (std::is_same_v<T, std::string>) return gen_string(r);
    else if constexpr (has_EN<T>::value) return r.pick(EN<T>::table()).first;
    else if constexpr (std::is_enum_v<T>) return (T)gen_int<std::underlying_type_t<T>>(r);
    else if constexpr (is_eset<T>::value) { T s; for (auto& [e, n] : EN<typename is_eset<T>::e>::table()) if (r.coin()) s |= e; return s; }
    else if constexpr (is_opt<T>::value) { if (r.chance(2, 5)) return std::nullopt; return gen<typename T::value_type>(r, d + 1); }
    else if constexpr (is_tup<T>::value) { T t{}; gen_tup(r, d + 1, t, std::make_index_sequence<std::tuple_size_v<T>>{}); return t; }
    else if constexpr (is_arr<T>::value) { T t{}; for (auto& x : t) x = gen<typename T::value_type>(r, d + 1); return t; }
    else if constexpr (is_map<T>::value) { T t; const bool large = d <= 1 && r.chance(1, 300); for (auto n = large ? 100 + r.below(200) : r.below(d > 3 ? 2 : 5); n; --n) t.emplace(large ? "key" + std::to_string(n) : gen_key(r), gen<typename T::mapped_type>(r, d + 1)); return t; }
    else if constexpr (has_D<T>::value) { T t{}; each_field<T>([&](auto& f) { t.*f.ptr = gen<fv<decltype(f)>>(r, d + 1); }); shape<T>::fix(t, r); return t; }
    else { T t; for (auto n = d <= 1 && r.chance(1, 300) ? 120 + r.below(200) : r.below(d > 3 ? 2 : r.chance(1, 12) ? 30 : 5); n; --n) t.push_back(gen<typename T::value_type>(r, d + 1)); return t; }
}
// ---------------------------------------------------------------- equality
template <class T> bool eq(const T& a, const T& b, bool exact);
template <class Tup, std::size_t... I> bool eq_tup(const Tup& a, const Tup& b, bool x, std::index_sequence<I...>) { return (eq(std::get<I>(a), std::get<I>(b), x) && ...); }
template <class T> bool eq(const T& a, const T& b, bool exact)
{
    if constexpr (has_custom<T>::value) return custom<T>::eq(a, b, exact);
    else if constexpr (std::is_same_v<T, float>) return exact ? a == b && std::signbit(a) == std::signbit(b) : a == b || std::fabs(a - b) <= std::max(std::fabs(a), std::fabs(b)) * 2.5e-7f;
    else if constexpr (std::is_floating_point_v<T>) return exact ? (a == b && std::signbit(a) == std::signbit(b)) || (std::isnan(a) && std::isnan(b)) : close(a, b);
    else if constexpr (is_opt<T>::value) return a.has_value() == b.has_value() && (!a || eq(*a, *b, exact));
    else if constexpr (is_tup<T>::value) return eq_tup(a, b, exact, std::make_index_sequence<std::tuple_size_v<T>>{});
    else if constexpr (is_map<T>::value) { if (a.size() != b.size()) return false; for (auto& [k, v] : a) { auto it = b.find(k); if (it == b.end() || !eq(v, it->second, exact)) return false; } return true; }
    else if constexpr (has_D<T>::value) { bool ok = true; each_field<T>([&](auto& f) { if (!eq<fv<decltype(f)>>(a.*f.ptr, b.*f.ptr, exact)) ok = false; }); return ok; }
    else if constexpr (std::is_arithmetic_v<T> || std::is_enum_v<T> || std::is_same_v<T, std::string>) return a == b;
    else if constexpr (is_eset<T>::value) return a.underlying_value() == b.underlying_value();
    else { if (a.size() != b.size()) return false; auto i = a.begin(); auto j = b.begin(); for (; i != a.end(); ++i, ++j) if (!eq<typename T::value_type>(*i, *j, exact)) return false; return true; }
}
// ---------------------------------------------------------------- encoding
struct collision {};
template <class T> J enc(const T& v, bool skip);
template <class T> bool nullish(const T& v) { if constexpr (is_opt<T>::value) return !v; else return false; }
template <class T> bool emptyish(const T& v) { if constexpr (is_map<T>::value || std::is_same_v<T, std::string>) return v.empty(); else if constexpr (std::is_arithmetic_v<T> || std::is_enum_v<T> || has_D<T>::value || is_opt<T>::value || is_tup<T>::value || is_eset<T>::value || has_custom<T>::value || is_arr<T>::value) return false; else return v.empty(); }
template <class T> void reserved(std::set<std::string>& out) { each_field<T>([&](auto& f) { if (f.extra) return; if (f.flat) { if constexpr (has_D<fv<decltype(f)>>::value) reserved<fv<decltype(f)>>(out); return; } out.insert(f.key); for (auto& a : f.al) out.insert(a); }); }
template <class T> void enc_fields(const T& v, bool skip, J& out, const std::set<std::string>& res)
{
    each_field<T>([&](auto& f) {
        using V = fv<decltype(f)>; const V& x = v.*f.ptr;
        if (f.skip_ser) return;
        if (f.nul == 1 ? false : f.nul == 2 ? nullish(x) : (skip && nullish(x))) return;
        if (f.sempty && emptyish(x)) return;
        if (f.extra) { if constexpr (is_map<V>::value) for (auto& [k, e] : x) { if (res.count(k)) throw collision{}; if (!(skip && nullish(e))) out.o.emplace_back(k, enc(e, skip)); } return; }
        if (f.flat) { if constexpr (has_D<V>::value) enc_fields(x, skip, out, res); return; }
        out.o.emplace_back(f.key, enc(x, skip));
    });
}
template <class Tup, std::size_t... I> void enc_tup(const Tup& t, bool skip, J& out, std::index_sequence<I...>) { (out.a.push_back(enc(std::get<I>(t), skip)), ...); }
template <class T> J enc(const T& v, bool skip)
{
    if constexpr (has_custom<T>::value) return custom<T>::enc(v, skip);
    else if constexpr (std::is_same_v<T, bool>) return J::boolean(v);
    else if constexpr (std::is_integral_v<T>) return J::integer((i128)v);
    else if constexpr (std::is_floating_point_v<T>) return J::real((double)v);
    else if constexpr (std::is_same_v<T, std::string>) return J::str(v);
    else if constexpr (has_EN<T>::value) { for (auto& [e, n] : EN<T>::table()) if (e == v) return J::str(n); return J::str("?"); }
    else if constexpr (std::is_enum_v<T>) return J::integer((i128)(std::underlying_type_t<T>)v);
    else if constexpr (is_eset<T>::value) { J j = J::arr(); for (auto& [e, n] : EN<typename is_eset<T>::e>::table()) if (auto u = (decltype(v.underlying_value()))e; (v.underlying_value() & u) == u) j.a.push_back(enc(e, skip)); return j; }
    else if constexpr (is_opt<T>::value) return v ? enc(*v, skip) : J::null();
    else if constexpr (is_tup<T>::value) { J j = J::arr(); enc_tup(v, skip, j, std::make_index_sequence<std::tuple_size_v<T>>{}); return j; }
    else if constexpr (is_map<T>::value) { J j = J::obj(); for (auto& [k, x] : v) if (!(skip && nullish(x))) j.o.emplace_back(k, enc(x, skip)); return j; }
    else if constexpr (has_D<T>::value) { J j = J::obj(); static const std::set<std::string> res = [] { std::set<std::string> s; reserved<T>(s); return s; }(); enc_fields(v, skip, j, res); return j; }
    else { J j = J::arr(); for (const auto& x : v) j.a.push_back(enc<typename T::value_type>(x, skip)); return j; }
}
// ---------------------------------------------------------------- decoding
struct rej { std::string cause; std::vector<std::string> ctx; bool nul = false; }; // nul: the cause quotes a NUL, which ends what()
[[noreturn]] inline void reject(std::string cause = {}) { throw rej{std::move(cause), {}}; }
template <class Fn> void in_ctx(std::string what, Fn fn) { try { fn(); } catch (rej& e) { e.ctx.push_back(std::move(what)); throw; } }

template <class T> void dec(T& out, const J& j);
template <class T> void patch(T& out, const J& j);
template <class Tup, std::size_t... I> void dec_tup(Tup& t, const J& j, std::index_sequence<I...>) { static const J null; (dec(std::get<I>(t), I < j.a.size() ? j.a[I] : null), ...); }
template <class F_, class T> const J* lookup(const F_& f, const J& j, T*) { if (auto* p = j.find(f.key)) return p; for (auto& a : f.al) if (auto* p = j.find(a)) return p; return nullptr; }
inline std::optional<i128> yaml_int(const std::string& s) { std::size_t i = s.size() && s[0] == '-'; if (i == s.size() || s.size() - i > 25) return {}; if (s[i] == '0' && s.size() > i + 1) return {}; i128 v = 0; for (std::size_t k = i; k < s.size(); ++k) { if (s[k] < '0' || s[k] > '9') return {}; v = v * 10 + (s[k] - '0'); } return i ? -v : v; }
template <class F_, class V> void validate(const F_& f, const V& v) { for (auto& c : f.val) { auto m = c(v); if (!m.empty()) reject(m); } }
template <class T> void dec_object(T& out, const J& j, const std::set<std::string>& res)
{
    static const J null;
    each_field<T>([&](auto& f) {
        using V = fv<decltype(f)>; V& x = out.*f.ptr;
        if (f.skip_de) return;
        if (f.extra)
        {
            if constexpr (is_map<V>::value) { x.clear(); for (auto& [k, e] : j.o) { if (res.count(k)) continue; in_ctx(k, [&, &e = e, &k = k] { typename V::mapped_type m{}; dec(m, e); x.emplace(k, std::move(m)); }); } }
            return;
        }
        in_ctx(f.decl, [&] {
            if (f.flat) { if constexpr (has_D<V>::value) in_ctx(D<V>::name(), [&] { dec_object(x, j, res); }); return; }
            const J* n = lookup(f, j, (T*)0);
            if (!n) { if (f.def) { f.def(x); return; } if (f.miss) return; dec(x, null); validate(f, x); return; }
            if (n->k == J::Null && f.def) { f.def(x); return; }
            dec(x, *n); validate(f, x);
        });
    });
}
template <class T> void dec_struct(T& out, const J& j)
{
    static const J null;
    static const std::set<std::string> res = [] { std::set<std::string> s; reserved<T>(s); return s; }();
    in_ctx(D<T>::name(), [&] {
        if (j.k == J::Obj) dec_object(out, j, res);
        else if (j.k == J::Arr)
        {
            std::size_t n = 0; each_field<T>([&](auto& f) { if (!f.skip_de) ++n; });
            if (j.a.size() > n) reject();
            std::size_t i = 0;
            each_field<T>([&](auto& f) { if (f.skip_de) return; in_ctx(std::to_string(i), [&] { if (f.extra || f.flat) reject(); auto& x = out.*f.ptr; dec(x, i < j.a.size() ? j.a[i] : null); validate(f, x); ++i; }); });
        }
        else reject();
    });
}
template <class T> void dec(T& out, const J& j)
{
    static const J null;
    const bool y = yaml_mode();
    if constexpr (has_custom<T>::value) custom<T>::dec(out, j);
    else if constexpr (std::is_same_v<T, bool>) { if (y) { if (j.k != J::Str || (j.s != "true" && j.s != "false")) reject(); out = j.s == "true"; return; } if (j.k != J::Bool) reject(); out = j.b; }
    else if constexpr (std::is_integral_v<T>) { i128 v; if (y) { if (j.k != J::Str) reject(); auto o = yaml_int(j.s); if (!o) reject(); v = *o; } else { if (j.k != J::Int) reject(); v = j.i; } if (v < (i128)std::numeric_limits<T>::min() || v > (i128)std::numeric_limits<T>::max()) reject(); out = (T)v; }
    else if constexpr (std::is_floating_point_v<T>) { if (y) { if (j.k != J::Str) reject(); char* e; double d = std::strtod(j.s.c_str(), &e); if (j.s.empty() || *e) reject(); out = (T)d; return; } if (j.k != J::Int && j.k != J::Dbl) reject(); if (j.k == J::Dbl) out = (T)j.d; else out = (T)(j.i < 0 ? (double)(std::int64_t)j.i : (double)(std::uint64_t)j.i); }
    else if constexpr (std::is_same_v<T, std::string>) { if (j.k != J::Str) reject(); out = j.s; }
    else if constexpr (has_EN<T>::value) { if (j.k != J::Str) reject(); for (auto& [e, n] : EN<T>::table()) if (n == j.s) { out = e; return; } throw rej{{}, {}, j.s.find('\0') != std::string::npos}; }
    else if constexpr (std::is_enum_v<T>) { std::underlying_type_t<T> u{}; dec(u, j); out = (T)u; }
    else if constexpr (is_eset<T>::value) { if (j.k != J::Arr) reject(); T s; for (auto& x : j.a) { typename is_eset<T>::e e{}; dec(e, x); s |= e; } out = s; }
    else if constexpr (is_opt<T>::value) { if (j.k == J::Null) { out.reset(); return; } typename T::value_type v{}; dec(v, j); out = std::move(v); }
    else if constexpr (is_tup<T>::value) { if (j.k != J::Arr || j.a.size() > std::tuple_size_v<T>) reject(); dec_tup(out, j, std::make_index_sequence<std::tuple_size_v<T>>{}); }
    else if constexpr (is_arr<T>::value) { if (j.k != J::Arr || j.a.size() > out.size()) reject(); for (std::size_t i = 0; i < out.size(); ++i) in_ctx(std::to_string(i), [&] { dec(out[i], i < j.a.size() ? j.a[i] : null); }); }
    else if constexpr (is_map<T>::value) { if (j.k != J::Obj) reject(); out.clear(); for (auto& m : j.o) in_ctx(m.first, [&] { typename T::mapped_type v{}; dec(v, m.second); out.emplace(m.first, std::move(v)); }); }
    else if constexpr (has_D<T>::value) dec_struct(out, j);
    else { if (j.k != J::Arr) reject(); out.clear(); std::size_t i = 0; for (auto& x : j.a) { in_ctx(std::to_string(i), [&] { typename T::value_type v{}; dec(v, x); out.push_back(std::move(v)); }); ++i; } }
}
template <class T> void patch_object(T& out, const J& j, const std::set<std::string>& res)
{
    each_field<T>([&](auto& f) {
        using V = fv<decltype(f)>; V& x = out.*f.ptr;
        if (f.skip_de) return;
        if (f.extra) { if constexpr (is_map<V>::value) for (auto& m : j.o) { if (res.count(m.first)) continue; in_ctx(m.first, [&] { auto it = x.find(m.first); if (it != x.end()) patch(it->second, m.second); else { typename V::mapped_type v{}; patch(v, m.second); x.emplace(m.first, std::move(v)); } }); } return; }
        in_ctx(f.decl, [&] {
            if (f.flat) { if constexpr (has_D<V>::value) in_ctx(D<V>::name(), [&] { patch_object(x, j, res); }); return; }
            const J* n = lookup(f, j, (T*)0); if (!n) return;
            if (n->k == J::Null && f.def) { f.def(x); return; }
            patch(x, *n); validate(f, x);
        });
    });
}
template <class T> void patch(T& out, const J& j)
{
    if constexpr (has_custom<T>::value) custom<T>::patch(out, j);
    else if constexpr (has_D<T>::value)
    {
        if (j.k != J::Obj) { dec(out, j); return; }
        static const std::set<std::string> res = [] { std::set<std::string> s; reserved<T>(s); return s; }();
        in_ctx(D<T>::name(), [&] { patch_object(out, j, res); });
    }
    else if constexpr (is_opt<T>::value) { if (j.k == J::Null) out.reset(); else if (out) patch(*out, j); else { typename T::value_type v{}; patch(v, j); out = std::move(v); } }
    else dec(out, j);
}
// ---------------------------------------------------------------- documents: hostile values and mutations
inline J random_scalar(rng& r, const std::vector<std::string>& words)
{
    switch (r.below(9))
    {
    case 0: return J::null();
    case 1: return J::boolean(r.coin());
    case 2: { static const i128 b[] = {0, 1, -1, 10, 11, 100, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 2147483647, 2147483648ll, -2147483648ll, -2147483649ll, 4294967295ll, 4294967296ll, (i128)9223372036854775807ll, (i128)9223372036854775807ll + 1, -(i128)9223372036854775807ll - 1, ((i128)1 << 64) - 1, (i128)1 << 32, (i128)1 << 40}; return J::integer(r.pick(b)); }
    case 3: return J::integer(r.range(-300, 300));
    case 4: return J::real(gen_double(r));
    case 5: return J::real((double)r.range(-3, 300));
    case 6: if (!words.empty()) return J::str(r.pick(words)); [[fallthrough]];
    case 7: return J::str(gen_string(r));
    default: return r.coin() ? J::arr() : J::obj();
    }
}
inline J random_doc(rng& r, const std::vector<std::string>& words, int d = 0)
{
    if (d > 3 || r.chance(1, 2)) return random_scalar(r, words);
    if (r.coin()) { J j = J::arr(); for (auto n = r.below(5); n; --n) j.a.push_back(random_doc(r, words, d + 1)); return j; }
    J j = J::obj(); for (auto n = r.below(5); n; --n) j.o.emplace_back(words.empty() || r.chance(1, 4) ? gen_key(r) : r.pick(words), random_doc(r, words, d + 1)); return j;
}
inline J* pick_node(rng& r, J& j) { J* p = &j; while (r.chance(3, 4)) { if (p->k == J::Arr && !p->a.empty()) p = &r.pick(p->a); else if (p->k == J::Obj && !p->o.empty()) p = &r.pick(p->o).second; else break; } return p; }
inline std::string near_miss(rng& r, std::string s)
{
    switch (r.below(5)) { case 0: if (!s.empty()) s.pop_back(); break; case 1: s += r.coin() ? 'x' : ' '; break; case 2: if (!s.empty()) { auto& c = s[r.below(s.size())]; c ^= 0x20; } break; case 3: s.push_back('\0'); break; default: s = std::string(1, (char)r.range('a', 'e')) + s; }
    return s;
}
inline void mutate(rng& r, J& j, const std::vector<std::string>& words)
{
    J& n = *pick_node(r, j);
    switch (r.below(10))
    {
    case 0: n = random_scalar(r, words); return;
    case 1: n = random_doc(r, words); return;
    case 2: n = J::null(); return;
    case 3: if (n.k == J::Obj && !n.o.empty()) { n.o.erase(n.o.begin() + r.below(n.o.size())); return; } if (n.k == J::Arr && !n.a.empty()) { if (r.coin()) n.a.pop_back(); else n.a.erase(n.a.begin() + r.below(n.a.size())); return; } break;
    case 4: if (n.k == J::Obj) { n.o.insert(n.o.begin() + r.below(n.o.size() + 1), {words.empty() ? gen_key(r) : r.pick(words), random_doc(r, words, 2)}); return; } if (n.k == J::Arr) { n.a.push_back(n.a.empty() || r.coin() ? random_doc(r, words, 2) : n.a[0]); return; } break;
    case 5: if (n.k == J::Obj && !n.o.empty()) { auto& k = r.pick(n.o).first; k = r.coin() || words.empty() ? near_miss(r, k) : r.pick(words); return; } break;
    case 6: if (n.k == J::Obj && !n.o.empty()) { auto m = r.pick(n.o); if (r.coin()) m.second = random_scalar(r, words); n.o.insert(n.o.begin() + r.below(n.o.size() + 1), m); return; } break;
    case 7: if (n.k == J::Obj && n.o.size() > 1) { std::swap(n.o[r.below(n.o.size())], n.o[r.below(n.o.size())]); return; } break;
    case 8: if (n.k == J::Obj) { J a = J::arr(); for (auto& m : n.o) a.a.push_back(m.second); n = a; return; } break;
    default: break;
    }
    switch (n.k)
    {
    case J::Int: if (r.coin()) n = J::real((double)n.i); else if (r.coin()) n.i += r.range(-2, 2); else n = J::str(i2s(n.i)); if (n.k == J::Int && (n.i > (((i128)1 << 64) - 1) || n.i < -((i128)1 << 63))) n.i = 0; break;
    case J::Dbl: n = r.coin() ? J::integer((i128)(n.d > 1e18 || n.d < -1e18 ? 7 : n.d)) : J::str(dtext(n.d)); break;
    case J::Str: n = r.coin() ? J::str(near_miss(r, n.s)) : r.coin() ? J::integer(r.range(0, 3)) : J::boolean(r.coin()); break;
    case J::Bool: n = r.coin() ? J::integer(n.b) : J::str(n.b ? "true" : "false"); break;
    default: n = random_scalar(r, words);
    }
}
// drops members here and there
inline void thin(rng& r, J& j)
{
    for (auto& x : j.a) thin(r, x);
    for (std::size_t i = 0; i < j.o.size();) { if (r.chance(1, 5)) j.o.erase(j.o.begin() + i); else { thin(r, j.o[i].second); ++i; } }
}
// every key, alias and enum name known to a type
template <class T> void words_of(std::set<std::string>& w, std::set<const void*>& done)
{
    static char tag; if (!done.insert(&tag).second) return;
    if constexpr (has_custom<T>::value) custom<T>::words(w);
    else if constexpr (has_EN<T>::value) { for (auto& p : EN<T>::table()) w.insert(p.second); }
    else if constexpr (is_eset<T>::value) words_of<typename is_eset<T>::e>(w, done);
    else if constexpr (has_D<T>::value) each_field<T>([&](auto& f) { w.insert(f.key); w.insert(f.decl); for (auto& a : f.al) w.insert(a); words_of<fv<decltype(f)>>(w, done); });
    else if constexpr (is_map<T>::value) words_of<typename T::mapped_type>(w, done);
    else if constexpr (is_tup<T>::value) { T t{}; std::apply([&](auto&... x) { (words_of<std::decay_t<decltype(x)>>(w, done), ...); }, t); }
    else if constexpr (std::is_arithmetic_v<T> || std::is_enum_v<T> || std::is_same_v<T, std::string>) {}
    else words_of<typename T::value_type>(w, done);
}
template <class T> const std::vector<std::string>& words() { static const std::vector<std::string> v = [] { std::set<std::string> s; std::set<const void*> d; words_of<T>(s, d); return std::vector<std::string>(s.begin(), s.end()); }(); return v; }

// ---------------------------------------------------------------- for the monitors of either back end
inline std::string cut(std::string s) { return s.size() > 500 ? s.substr(0, 500) + "..." : s; }

// msg must start with the cause and then name the contexts, inside out
inline std::string message_problem(const char* what, const rej& e)
{
    std::string m = what;
    if (m.empty() || m[0] == '\n') return "no cause";
    if (!e.cause.empty() && m.compare(0, e.cause.size(), e.cause) != 0) return "does not start with the validator's message \"" + e.cause + "\"";
    if (e.nul) return "";
    std::size_t pos = m.find('\n');
    for (auto& c : e.ctx)
    {
        if (c.find('\0') != std::string::npos || c.empty()) return "";
        if (pos == std::string::npos) return "context \"" + c + "\" missing";
        for (;; ++pos) { pos = m.find(c, pos); if (pos == std::string::npos || m[pos - 1] == ' ' || m[pos - 1] == ':') break; }
        if (pos == std::string::npos) return "context \"" + c + "\" missing or out of order";
        pos += c.size();
    }
    return "";
}
template <class T> J enc_safe(const T& v) { try { return enc(v, false); } catch (collision&) { return J::str("<collision>"); } }
} // namespace jm

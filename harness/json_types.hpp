#pragma once
#ifdef VF_YAML
#include "yamlops.hpp"
#else
#include "jsonops.hpp"
#endif
namespace jt {
enum class color { red, green, blue, alpha };
KL_REFLECT_ENUM(color, red, (green, GREEN), blue, (alpha, al_pha))
enum level : short { low = -5, mid = 0, high = 300 };
KL_REFLECT_ENUM(level, low, mid, high)
enum class raw8 : std::uint8_t { a = 1, b = 200 };
enum class raw64 : std::int64_t { a = -1 };
enum class flag : unsigned { f1 = 1, f2 = 2, f8 = 8, top = 0x80000000u };
KL_REFLECT_ENUM(flag, f1, f2, (f8, eight), top)
enum class dup { a = 0, b = 1, bb = 1, c = 5 }; // two names for one value
KL_REFLECT_ENUM(dup, a, b, bb, (c, sea))
enum class perm : std::uint8_t { none = 0, r = 1, w = 2, rw = 3, write = 2, x = 0x80 }; // aliased, combined and zero flags
KL_REFLECT_ENUM(perm, none, r, (w, W), rw, write, x)
struct inner { int i = 0; std::string s; bool operator==(const inner& o) const { return i == o.i && s == o.s; } };
KL_REFLECT_STRUCT(inner, i, s)
struct scalars { bool b = false; std::int8_t i8 = 0; std::uint8_t u8 = 0; std::int16_t i16 = 0; std::uint16_t u16 = 0; std::int32_t i32 = 0; std::uint32_t u32 = 0; std::int64_t i64 = 0; std::uint64_t u64 = 0; float f = 0; double d = 0; std::string s; };
KL_REFLECT_STRUCT(scalars, b, i8, u8, i16, u16, i32, u32, i64, u64, f, d, s)
struct opts { std::optional<int> a; std::optional<std::string> b; std::optional<inner> c; std::optional<std::vector<std::optional<int>>> d; int last = 0; };
KL_REFLECT_STRUCT(opts, a, b, c, d, last)
struct base { int b1 = 0; std::optional<std::string> b2; };
KL_REFLECT_STRUCT(base, b1, b2)
struct derived : base { color c{}; std::vector<int> v; };
KL_REFLECT_STRUCT_DERIVED(derived, base, c, v)
struct leaf : derived { std::map<std::string, inner> m; std::tuple<int, std::string, std::optional<double>> t; };
KL_REFLECT_STRUCT_DERIVED(leaf, derived, m, t)
struct node { int v = 0; std::vector<node> kids; std::optional<std::string> tag; };
KL_REFLECT_STRUCT(node, v, kids, tag)
struct mixed { level l{}; raw8 r{}; raw64 q{}; kl::enum_set<flag> fs; std::array<inner, 2> arr; std::pair<std::string, bool> p; std::map<std::string, std::optional<int>> mo; std::vector<derived> ds; };
KL_REFLECT_STRUCT(mixed, l, r, q, fs, arr, p, mo, ds)
class secret { int a = 0; std::string b; KL_REFLECT_STRUCT_FRIEND(secret, a, b) public: static int secret::*pa() { return &secret::a; } static std::string secret::*pb() { return &secret::b; } };
struct allopt { std::optional<int> x; std::optional<color> y; };
KL_REFLECT_STRUCT(allopt, x, y)
}
namespace jm {
template <> struct EN<jt::color> { static const auto& table() { using E = jt::color; static const std::vector<std::pair<E, std::string>> t{{E::red, "red"}, {E::green, "GREEN"}, {E::blue, "blue"}, {E::alpha, "al_pha"}}; return t; } };
template <> struct EN<jt::level> { static const auto& table() { static const std::vector<std::pair<jt::level, std::string>> t{{jt::low, "low"}, {jt::mid, "mid"}, {jt::high, "high"}}; return t; } };
template <> struct EN<jt::flag> { static const auto& table() { using E = jt::flag; static const std::vector<std::pair<E, std::string>> t{{E::f1, "f1"}, {E::f2, "f2"}, {E::f8, "eight"}, {E::top, "top"}}; return t; } };
template <> struct EN<jt::dup> { static const auto& table() { using E = jt::dup; static const std::vector<std::pair<E, std::string>> t{{E::a, "a"}, {E::b, "b"}, {E::bb, "bb"}, {E::c, "sea"}}; return t; } };
template <> struct EN<jt::perm> { static const auto& table() { using E = jt::perm; static const std::vector<std::pair<E, std::string>> t{{E::none, "none"}, {E::r, "r"}, {E::w, "W"}, {E::rw, "rw"}, {E::write, "write"}, {E::x, "x"}}; return t; } };
#define VF_D(T, ...) template <> struct D<T> { using S = T; static const char* name() { return strrchr(#T, ':') + 1; } static auto fields() { return std::make_tuple(__VA_ARGS__); } };
#define f_(m) F<S>(#m, &S::m)
VF_D(jt::inner, f_(i), f_(s))
VF_D(jt::scalars, f_(b), f_(i8), f_(u8), f_(i16), f_(u16), f_(i32), f_(u32), f_(i64), f_(u64), f_(f), f_(d), f_(s))
VF_D(jt::opts, f_(a), f_(b), f_(c), f_(d), f_(last))
VF_D(jt::base, f_(b1), f_(b2))
VF_D(jt::derived, f_(b1), f_(b2), f_(c), f_(v))
VF_D(jt::leaf, f_(b1), f_(b2), f_(c), f_(v), f_(m), f_(t))
VF_D(jt::node, f_(v), f_(kids), f_(tag))
VF_D(jt::mixed, f_(l), f_(r), f_(q), f_(fs), f_(arr), f_(p), f_(mo), f_(ds))
VF_D(jt::secret, F<S>("a", S::pa()), F<S>("b", S::pb()))
VF_D(jt::allopt, f_(x), f_(y))
}

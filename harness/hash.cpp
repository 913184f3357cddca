// C19: string hashes against independent implementations of the published algorithms.
#include "vf.hpp"
#include <array>
#include <memory>
#include "kl/hash.hpp"
using vf::rng;
static std::uint32_t ref_fnv(const std::string& s)
{
    std::uint64_t h = 0x811c9dc5u;
    for (char c : s) { h ^= (std::uint64_t)(c & 0xff); h = h * 0x01000193u % 0x100000000ull; }
    return (std::uint32_t)h;
}
// SuperFastHash, written over little-endian 16-bit words with 64-bit arithmetic
static std::uint32_t ref_hsieh(const std::string& s)
{
    if (s.empty()) return 0;
    auto M = [](std::uint64_t x) { return x & 0xffffffffull; };
    auto B = [&](std::size_t i) { return (std::uint64_t)(s[i] & 0xff); };
    auto W = [&](std::size_t i) { return B(i) + 256 * B(i + 1); };
    auto S = [&](std::size_t i) { std::int64_t v = (std::int64_t)B(i); if (v > 127) v -= 256; return M((std::uint64_t)v); };
    std::uint64_t h = M(s.size()); std::size_t i = 0;
    for (; i + 4 <= s.size(); i += 4) { h = M(h + W(i)); std::uint64_t t = M(W(i + 2) << 11) ^ h; h = M(h << 16) ^ t; h = M(h + (h >> 11)); }
    switch (s.size() - i)
    {
    case 3: h = M(h + W(i)); h ^= M(h << 16); h ^= M(S(i + 2) << 18); h = M(h + (h >> 11)); break;
    case 2: h = M(h + W(i)); h ^= M(h << 11); h = M(h + (h >> 17)); break;
    case 1: h = M(h + S(i)); h ^= M(h << 10); h = M(h + (h >> 1)); break;
    default: break;
    }
    h ^= M(h << 3); h = M(h + (h >> 5)); h ^= M(h << 4); h = M(h + (h >> 17)); h ^= M(h << 25); h = M(h + (h >> 6));
    return (std::uint32_t)h;
}
static void check(const std::string& s)
{
    std::unique_ptr<char[]> p(new char[s.size()]); std::memcpy(p.get(), s.data(), s.size());
    auto f = ref_fnv(s), h = ref_hsieh(s);
    VF_CHECK(kl::hash::fnv1a(p.get(), s.size()) == f, "fnv1a", "fnv1a of " << vf::jesc(s) << " is " << kl::hash::fnv1a(p.get(), s.size()) << " expected " << f);
    VF_CHECK(kl::hash::fnv1a(s) == f, "fnv1a-string", "fnv1a(std::string) of " << vf::jesc(s));
    VF_CHECK(kl::hash::hsieh(p.get(), s.size()) == h, "hsieh", "hsieh of " << vf::jesc(s) << " is " << kl::hash::hsieh(p.get(), s.size()) << " expected " << h);
    { using namespace kl::hash::operators; VF_CHECK(kl::hash::operators::operator""_h(p.get(), s.size()) == f, "literal", vf::jesc(s)); }
    // any alignment
    std::unique_ptr<char[]> q(new char[s.size() + 3]); for (int o = 1; o <= 3; ++o) { std::memcpy(q.get() + o, s.data(), s.size()); VF_CHECK(kl::hash::hsieh(q.get() + o, s.size()) == h && kl::hash::fnv1a(q.get() + o, s.size()) == f, "alignment", vf::jesc(s)); }
}
// Literals: compile time and run time must agree with the reference.
#define LITS(X) X("") X("a") X("ab") X("abc") X("abcd") X("hello world") X("\x80") X("a\xff") X("\xc3\xa9t\xc3\xa9") X("\xff\xfe\xfd") X("1234\x81") X("12\0" "4") X("\x7f\x80\x7f\x80\xff") X("\0\0\0")
using namespace kl::hash::operators;
#ifdef VF_NO_CT
#define CT_CHECK(L)
#else
#define CT_CHECK(L) { constexpr std::uint32_t a = kl::hash::fnv1a(L); constexpr std::uint32_t b = L ""_h; constexpr std::uint32_t c = kl::hash::hsieh(L, sizeof(L) - 1); \
    std::string s(L, sizeof(L) - 1); VF_CHECK(a == ref_fnv(s), "compile-time", "fnv1a literal " << vf::jesc(s)); VF_CHECK(b == a, "compile-time", "_h literal " << vf::jesc(s)); VF_CHECK(c == ref_hsieh(s), "compile-time", "hsieh literal " << vf::jesc(s)); vf::count("ev.compile_time"); }
#endif
static void one(rng& r, std::uint64_t idx)
{
    if (idx == 0)
    {
        LITS(CT_CHECK)
        VF_CHECK(kl::hash::hsieh(nullptr, 0) == 0 && kl::hash::hsieh(nullptr, 5) == 0, "null", "hsieh of null");
        VF_CHECK(ref_fnv("foobar") == 0xbf9cf968u && kl::hash::fnv1a("foobar") == 0xbf9cf968u, "vector", "published FNV-1a vector");
        const char unterminated[] = {'a', 'b'}; bool threw = false; try { (void)kl::hash::fnv1a(unterminated); } catch (const std::logic_error&) { threw = true; }
        VF_CHECK(threw, "unterminated", "array without terminator accepted");
        return;
    }
    if (idx <= 256) { for (std::size_t n = 1; n <= 9; ++n) for (std::size_t k = 0; k < n; ++k) for (int f : {0, 120, 255}) { std::string s(n, (char)f); s[k] = (char)(idx - 1); check(s); } vf::count("ev.systematic"); vf::seen(idx); return; }
    std::string s(r.chance(1, 20) ? r.below(3000) : r.below(24), 0); bool hi = r.coin();
    for (auto& c : s) c = hi ? (char)r.next() : (char)r.below(128);
    check(s); vf::seen(s); vf::count(hi ? "ev.binary" : "ev.ascii"); vf::count("ev.tail" + std::to_string(s.size() % 4)); vf::sample(s);
}
int main(int c, char** v) { return vf::run(c, v, one); }

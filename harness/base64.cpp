// C18: base64 against a bit-string codec.
#include "vf.hpp"
#include <memory>
#include "kl/base64.hpp"
using vf::rng;
using bytes = std::string;
static const std::string STD = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static const std::string URL = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
static std::string ref_encode(const bytes& b, bool url)
{
    std::vector<int> bits; for (unsigned char c : b) for (int i = 7; i >= 0; --i) bits.push_back(c >> i & 1);
    while (bits.size() % 6) bits.push_back(0);
    std::string o; for (std::size_t i = 0; i < bits.size(); i += 6) { int v = 0; for (int k = 0; k < 6; ++k) v = v * 2 + bits[i + k]; o += (url ? URL : STD)[v]; }
    if (!url) while (o.size() % 4) o += '=';
    return o;
}
enum class verdict { no, yes, unspecified };
static verdict ref_decode(const std::string& t, bool url, bytes& out)
{
    std::string s = t; std::size_t pad = 0;
    while (!s.empty() && s.back() == '=') { s.pop_back(); ++pad; }
    verdict ok = verdict::yes;
    if (!url) { if (t.size() % 4 || pad > 2) return verdict::no; }
    else if (pad)
    {   // the URL form is unpadded; correct padding is tolerated, anything else is not specified here (more than two never)
        if (pad > 2) return verdict::no;
        if (t.size() % 4) ok = verdict::unspecified;
    }
    if (s.size() % 4 == 1) return verdict::no;
    std::vector<int> bits;
    for (char c : s) { auto p = (url ? URL : STD).find(c); if (p == std::string::npos) return verdict::no; for (int k = 5; k >= 0; --k) bits.push_back(p >> k & 1); }
    out.clear(); for (std::size_t i = 0; i + 8 <= bits.size(); i += 8) { int v = 0; for (int k = 0; k < 8; ++k) v = v * 2 + bits[i + k]; out += (char)v; }
    return ok;
}
static std::string enc(const bytes& b, bool url)
{
    std::unique_ptr<std::byte[]> p(b.empty() ? nullptr : new std::byte[b.size()]); if (!b.empty()) std::memcpy(p.get(), b.data(), b.size());
    gsl::span<const std::byte> sp{p.get(), b.size()};
    return url ? kl::base64url_encode(sp) : kl::base64_encode(sp);
}
static std::optional<bytes> dec(const std::string& t, bool url)
{
    std::unique_ptr<char[]> p(new char[t.size()]); std::memcpy(p.get(), t.data(), t.size());
    std::string_view sv{p.get(), t.size()};
    auto r = url ? kl::base64url_decode(sv) : kl::base64_decode(sv);
    if (!r) return std::nullopt;
    return bytes(reinterpret_cast<const char*>(r->data()), r->size());
}
static void check_text(const std::string& t, bool url)
{
    bytes want; auto v = ref_decode(t, url, want); auto got = dec(t, url);
    if (v == verdict::no) { VF_CHECK(!got, "accepts-bad", "url=" << url << " text " << vf::jesc(t) << " was accepted"); vf::count("ev.rejected"); }
    else if (v == verdict::yes) { VF_CHECK(got && *got == want, "decode", "url=" << url << " text " << vf::jesc(t) << (got ? " decoded to other bytes" : " was rejected")); vf::count("ev.decoded"); }
    else if (got) VF_CHECK(*got == want, "decode", "url=" << url << " text " << vf::jesc(t) << " decoded to other bytes");
}
static void check_bytes(const bytes& b)
{
    for (bool url : {false, true})
    {
        auto e = enc(b, url);
        VF_CHECK(e == ref_encode(b, url), "encode", "url=" << url << " encoding of " << vf::jesc(b) << " is " << e);
        auto d = dec(e, url); VF_CHECK(d && *d == b, "roundtrip", "url=" << url << " " << vf::jesc(b));
    }
    vf::count("ev.roundtrip");
}
static void one(rng& r, std::uint64_t idx)
{
    if (idx < 256) // systematic: this byte value at every position of every length class, and as every text character
    {
        for (std::size_t n = 1; n <= 7; ++n) for (std::size_t k = 0; k < n; ++k) for (int fill : {0, 255, 0x5a}) { bytes b(n, (char)fill); b[k] = (char)idx; check_bytes(b); }
        for (std::size_t n = 1; n <= 10; ++n) for (std::size_t k = 0; k < n; ++k) for (int pad = 0; pad < 4; ++pad) for (bool url : {false, true})
        { std::string t(n, url ? '_' : '/'); t[k] = (char)idx; t += std::string(pad, '='); check_text(t, url); t[(k + 1) % n] = 'A'; check_text(t, url); }
        vf::count("ev.systematic"); vf::seen(idx); return;
    }
    bytes b(r.chance(1, 4000) ? 65000 + r.below(200000) : r.chance(1, 20) ? r.below(2000) : r.below(40), 0); for (auto& c : b) c = (char)r.next();
    check_bytes(b); vf::seen(b);
    bool url = r.coin();
    std::string t = r.chance(1, 5) ? std::string(r.below(20), 0) : ref_encode(b, url);
    if (t.size() && !t[0]) for (auto& c : t) c = r.chance(5, 6) ? (url ? URL : STD)[r.below(64)] : (char)r.next();
    for (auto n = r.below(4); n--;)
        switch (r.below(6))
        {
        case 0: if (!t.empty()) t[r.below(t.size())] = (char)r.next(); break;
        case 1: if (!t.empty()) t[r.below(t.size())] = '='; break;
        case 2: t += '='; break;
        case 3: if (!t.empty()) t.pop_back(); break;
        case 4: if (!t.empty()) t[r.below(t.size())] = "+/-_ \n\0,."[r.below(9)]; break;
        default: t.insert(r.below(t.size() + 1), 1, (url ? URL : STD)[r.below(64)]);
        }
    check_text(t, url); check_text(t, !url); vf::seen(t); vf::sample(t);
}
int main(int c, char** v) { return vf::run(c, v, one); }

// C15: kl::path against an independent parser, with reuse, copies and moves.
#include "vf.hpp"
#include <memory>
#include <optional>
#include "kl/path.hpp"
using vf::rng;
using segs = std::vector<std::string>;

static int hexval(unsigned char c)
{
    static const std::string digits = "0123456789abcdef";
    if (c < 128) { auto p = digits.find((char)std::tolower(c)); if (p != std::string::npos) return (int)p; }
    return -1;
}
// nullopt: malformed
static std::optional<segs> ref_parse(const std::string& s)
{
    segs raw(1), out;
    for (char c : s) if (c == '/') raw.emplace_back(); else raw.back() += c;
    for (auto& x : raw)
    {
        if (x.empty() || x == ".") continue;
        if (x == "..") { if (!out.empty()) out.pop_back(); continue; }
        std::string d;
        for (std::size_t i = 0; i < x.size(); ++i)
        {
            if (x[i] != '%') { d += x[i]; continue; }
            if (i + 2 > x.size() - 1) return std::nullopt;
            int a = hexval((unsigned char)x[i + 1]), b = hexval((unsigned char)x[i + 2]);
            if (a < 0 || b < 0 || a * 16 + b == '/') return std::nullopt;
            d += (char)(a * 16 + b); i += 2;
        }
        out.push_back(d);
    }
    return out;
}
static std::string join(const segs& s, std::size_t from, std::size_t to) { std::string o; for (auto i = from; i < to; ++i) { if (i != from) o += '/'; o += s[i]; } return o; }
static std::string gen_seg(rng& r)
{
    std::string s;
    switch (r.below(12))
    {
    case 0: return "";
    case 1: return ".";
    case 2: case 3: return "..";
    case 4: return "...";
    case 5: return r.coin() ? "%2e" : "%2E%2e";
    case 6: return r.coin() ? "%2F" : "a%2fb";
    case 7: return std::string(r.chance(1, 50) ? r.below(5000) : r.below(90), 'q');
    default: break;
    }
    static const char raw[] = "ab.%09AFafgG/\0\x7f\xff -~"; static const std::string alpha(raw, sizeof raw - 1);
    for (auto n = 1 + r.below(7); n--;)
    {
        auto k = r.below(10);
        if (k < 5) s += (char)('a' + r.below(26));
        else if (k < 7) { static const char* hx = "0123456789abcdefABCDEF"; s += '%'; s += hx[r.below(22)]; s += hx[r.below(22)]; }
        else if (k == 7) { s += '%'; if (r.coin()) s += alpha[r.below(alpha.size())]; }
        else if (k == 8) s += (char)r.next();
        else s += alpha[r.below(alpha.size())];
    }
    return s;
}
static std::string gen_path(rng& r, unsigned maxseg)
{
    std::string s; if (r.coin()) s = "/";
    for (auto n = r.below(maxseg); n--;) { s += gen_seg(r); if (!r.chance(1, 20)) s += '/'; }
    if (r.coin() && !s.empty()) s.pop_back();
    if (r.chance(1, 10) && !s.empty()) s[r.below(s.size())] = (char)r.next();
    return s;
}
static std::string gen_clean(rng& r, unsigned maxseg) // mostly well-formed, to reach long segment lists
{
    std::string s;
    for (auto n = r.below(maxseg); n--;)
    {
        s += '/';
        auto k = r.below(10);
        if (k == 0) s += ".."; else if (k == 1) s += '.'; else if (k == 2) s += "%41%2e"; else if (k == 3) s += ".%2e"; else for (auto m = 1 + r.below(5); m--;) s += (char)('a' + r.below(3));
    }
    return s;
}
static void check_view(const kl::path_view& v, const segs& e, std::size_t lo, std::size_t hi, const segs& all, const std::string& in)
{
    VF_CHECK(v.size() == hi - lo && v.empty() == (lo == hi), "view-size", "in=" << vf::jesc(in));
    for (std::size_t i = lo; i < hi; ++i) VF_CHECK(v[i - lo] == e[i], "view-index", "segment " << i << " in=" << vf::jesc(in));
    if (lo != hi) VF_CHECK(v.front() == e[lo], "view-front", "in=" << vf::jesc(in));
    for (std::size_t n = 0; n <= hi - lo; ++n)
    {
        // a prefix of n segments of this view always reads from the start of the whole path
        VF_CHECK(std::string(v.prefix(n)) == (n == 0 ? std::string{} : join(all, 0, lo + n)), "view-prefix", "prefix " << n << " of view [" << lo << "," << hi << ") in=" << vf::jesc(in));
    }
}
static void check_path(rng& r, const kl::path& p, const segs& e, const std::string& in)
{
    kl::path_view none; VF_CHECK(none.empty() && none.size() == 0, "view-default", "a default view has segments");
    VF_CHECK(p.size() == e.size() && p.empty() == e.empty(), "size", "size " << p.size() << " expected " << e.size() << " in=" << vf::jesc(in));
    if (p.size() != e.size()) return;
    for (std::size_t i = 0; i < e.size(); ++i) VF_CHECK(p[i] == e[i], "segment", "segment " << i << " = " << vf::jesc(p[i]) << " expected " << vf::jesc(e[i]) << " in=" << vf::jesc(in));
    for (std::size_t i = 0; i <= e.size() + 1; ++i)
        VF_CHECK(std::string(p.joined(i)) == (i < e.size() ? join(e, i, e.size()) : ""), "joined", "joined(" << i << ") in=" << vf::jesc(in));
    auto v = p.view(); std::size_t lo = 0, hi = e.size();
    check_view(v, e, lo, hi, e, in);
    while (lo < hi)
    {
        if (r.coin()) { v = v.drop_front(); ++lo; } else { v = v.drop_back(); --hi; }
        check_view(v, e, lo, hi, e, in);
    }
}
static void one(rng& r, std::uint64_t)
{
    struct slot { kl::path p; std::optional<segs> m = segs{}; std::string in; };
    std::vector<std::unique_ptr<slot>> pool;
    for (int i = 0; i < 2; ++i) pool.push_back(std::make_unique<slot>());
    unsigned steps = 1 + (unsigned)r.below(6); std::string log;
    for (unsigned i = 0; i < steps; ++i)
    {
        auto& s = *pool[r.below(pool.size())];
        switch (r.below(10))
        {
        case 0: s.p.clear(); s.m = segs{}; s.in = "(clear)"; vf::count("op.clear"); break;
        case 1: { auto& o = *pool[r.below(pool.size())]; if (&o != &s) { s.p = o.p; s.m = o.m; s.in = o.in; vf::count("op.copy"); } break; }
        case 2: { auto& o = *pool[r.below(pool.size())]; if (&o != &s) { s.p = std::move(o.p); s.m = o.m; s.in = o.in; o.p = kl::path{}; o.m = segs{}; o.in = ""; vf::count("op.move"); } break; }
        case 3: { kl::path c{s.p}; kl::path d{std::move(c)}; if (s.m) check_path(r, d, *s.m, s.in); vf::count("op.copy"); break; }
        default:
        {
            std::string in = r.chance(1, 2) ? gen_path(r, 8) : r.coin() ? gen_clean(r, 12) : gen_clean(r, r.chance(1, 200) ? 700 : 60);
            auto want = ref_parse(in);
            // exactly sized, not NUL-terminated storage, gone before the path is inspected
            std::unique_ptr<char[]> raw(new char[in.size()]); std::memcpy(raw.get(), in.data(), in.size());
            bool threw = false; std::string what;
            bool fresh = r.chance(1, 3);
            try { std::string_view sv{raw.get(), in.size()}; if (fresh) s.p = kl::path{sv}; else s.p.set(sv); }
            catch (const kl::path_parse_error& e) { threw = true; what = e.what(); }
            raw.reset();
            s.in = in; log += in; log += '|';
            VF_CHECK(threw == !want, "accept", "path " << vf::jesc(in) << (threw ? " rejected" : " accepted"));
            if (threw) { VF_CHECK(!what.empty(), "what", "empty message"); vf::count("ev.rejected"); s.p.clear(); s.m = segs{}; s.in = "(after error)"; }
            else { s.m = want; vf::count("ev.accepted"); if (want && want->size() > 15) vf::count("ev.beyond_inline"); if (want && in.find("..") != std::string::npos) vf::count("ev.dotdot"); }
        }
        }
        for (auto& q : pool) if (q->m) check_path(r, q->p, *q->m, q->in);
    }
    vf::seen(log); vf::sample(log);
}
int main(int c, char** v) { return vf::run(c, v, one); }

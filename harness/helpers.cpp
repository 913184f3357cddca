// C25: split, zip, joiners, ranges, iterator_facade.  C27 (--mode flow): KL_DEFER and match.
#include "vf.hpp"
#include <algorithm>
#include <array>
#include <deque>
#include <list>
#include <memory>
#include <numeric>
#include <variant>
#include "kl/defer.hpp"
#include "kl/iterator_facade.hpp"
#include "kl/match.hpp"
#include "kl/range.hpp"
#include "kl/split.hpp"
#include "kl/stream_join.hpp"
#include "kl/zip.hpp"
using vf::rng;
using strs = std::vector<std::string>;

static std::string rnd(rng& r, const std::string& alpha, std::size_t max) { std::string s; for (auto n = r.below(max); n--;) s += alpha[r.below(alpha.size())]; return s; }
static std::string show(const strs& v) { std::string o; for (auto& s : v) o += vf::jesc(s) + ","; return o; }
static strs ref_split(const std::string& s, const std::string& d, bool skip)
{
    strs out; std::string cur; bool open = false;
    for (char c : s) { open = true; if (d.find(c) != std::string::npos) { out.push_back(cur); cur.clear(); open = false; } else cur += c; }
    if (open) out.push_back(cur); // text after the last delimiter; nothing follows a delimiter at the very end
    if (skip) out.erase(std::remove(out.begin(), out.end(), ""), out.end());
    return out;
}
static void split(rng& r)
{
    std::string alpha = "ab,; "; alpha += '\0'; alpha += '\xff';
    std::string dalpha = r.coin() ? ",;" : std::string(", ;\0\xff", 5);
    if (r.coin()) // a few characters of any kind, so that each is often next to each other one
    {
        alpha.clear(); static const char common[] = "\r\n\t\v\f \b\a\"'\\/|:.-_+*#~$%&()[]{}<>=!?@^`09AZaz\x7f\x80";
        static const char special[] = "\r\n\t \\\"',;:/"; const bool few = r.coin();
        for (auto n = 2 + r.below(4); n--;) alpha += few ? special[r.below(sizeof special)] : r.coin() ? common[r.below(sizeof common)] : (char)r.next();
        dalpha = alpha;
    }
    auto s = rnd(r, alpha, r.chance(1, 50) ? 600 : r.coin() ? 6 : 30), d = rnd(r, dalpha, r.chance(1, 10) ? 30 : 4); bool skip = r.coin();
    auto want = ref_split(s, d, skip);
    auto got = kl::split(s, d, skip);
    VF_CHECK(got == want, "split", "split(" << vf::jesc(s) << "," << vf::jesc(d) << "," << skip << ") = " << show(got) << " expected " << show(want));
    std::vector<char> vs(s.begin(), s.end()); std::list<char> ld(d.begin(), d.end());
    VF_CHECK(kl::split(vs, ld, skip) == want, "split-containers", vf::jesc(s));
    VF_CHECK(kl::split(std::string_view{s}, std::string_view{d}, skip) == want, "split-views", vf::jesc(s));
    if (skip) VF_CHECK(kl::split(s, d) == want, "split-default", vf::jesc(s));
    // tokens are adjacent, non-overlapping pieces of the input, at the right places
    const auto all = ref_split(s, d, false); std::size_t k = 0; auto pos = s.cbegin();
    kl::for_each_token(s.cbegin(), s.cend(), d.cbegin(), d.cend(), [&](auto f, auto l) { VF_CHECK(k < all.size() && f == pos && std::string(f, l) == all[k], "token", vf::jesc(s) << " token " << k); pos = l == s.cend() ? l : l + 1; ++k; });
    VF_CHECK(k == all.size(), "token-count", vf::jesc(s) << " " << k << " expected " << all.size());
    vf::count("ev.split"); if (want.empty()) vf::count("ev.split_empty"); vf::seen(s + "|" + d); vf::sample(s + "|" + d);
}
template <class C> C fill(rng& r, std::size_t max) { C c; for (auto n = r.chance(1, 40) ? r.below(300) : r.below(max); n--;) c.push_back((typename C::value_type)r.below(100)); return c; }
static void zip(rng& r)
{
    auto a = fill<std::vector<int>>(r, 7); auto b = fill<std::list<long>>(r, 7); const auto c = fill<std::deque<short>>(r, 7);
    auto nth = [](auto& x, std::size_t k) -> auto& { auto it = x.begin(); std::advance(it, k); return *it; };
    std::size_t n = std::min({a.size(), b.size(), c.size()}), k = 0;
    for (auto&& t : kl::zipped(a, b, c))
    {
        VF_CHECK((std::is_same_v<std::decay_t<decltype(t)>, std::tuple<int&, long&, const short&>>), "zip-type", "elements are not references to the zipped ones");
        VF_CHECK(k < n && &std::get<0>(t) == &a[k] && &std::get<1>(t) == &nth(b, k) && &std::get<2>(t) == &c[k], "zip3", "element " << k); std::get<0>(t) += 1000; ++k; if (k > n) break;
    }
    VF_CHECK(k == n, "zip3-length", k << " of " << n);
    for (std::size_t i = 0; i < a.size(); ++i) VF_CHECK((a[i] >= 1000) == (i < n), "zip-write", i);
    k = 0; for (auto&& t : kl::zipped(b)) { VF_CHECK(&std::get<0>(t) == &nth(b, k), "zip1", k); ++k; } VF_CHECK(k == b.size(), "zip1-length", k);
    k = 0; for (auto&& [i, x] : kl::enumerated(b)) { VF_CHECK(i == k && &x == &nth(b, k), "enumerated", k); ++k; } VF_CHECK(k == b.size(), "enumerated-length", k);
    const auto& cc = c; k = 0; for (auto&& [i, x] : kl::enumerated(cc)) { VF_CHECK(i == k && &x == &c[k], "enumerated-const", k); ++k; } VF_CHECK(k == c.size(), "enumerated-const-length", k);
    int arr[4] = {1, 2, 3, 4}; const char carr[3] = {'x', 'y', 'z'}; std::array<int, 5> sa{}; k = 0;
    for (auto&& t : kl::zipped(arr, carr, sa)) { VF_CHECK(&std::get<0>(t) == &arr[k] && &std::get<1>(t) == &carr[k] && &std::get<2>(t) == &sa[k], "zip-arrays", k); ++k; } VF_CHECK(k == 3, "zip-arrays-length", k);
    auto lo = r.range(-5, 5), hi = lo + (std::int64_t)r.below(8); k = 0;
    for (auto&& [x, y] : kl::zipped(kl::iota_range<std::int64_t>{lo, hi}, a)) { VF_CHECK(x == lo + (std::int64_t)k && &y == &a[k], "zip-iota", k); ++k; } VF_CHECK(k == std::min<std::size_t>(a.size(), (std::size_t)(hi - lo)), "zip-iota-length", k);
    std::int64_t w = lo; for (auto x : kl::iota_range<std::int64_t>{lo, hi}) { VF_CHECK(x == w, "iota", w); ++w; } VF_CHECK(w == hi, "iota-length", w);
    k = 0; for (auto x : kl::unbounded_iota_range<int>{7}) { VF_CHECK(x == 7 + (int)k, "unbounded", k); if (++k == 5) break; }
    vf::count("ev.zip"); if (!n) vf::count("ev.zip_empty"); vf::seen(a.size() * 10000 + b.size() * 100 + c.size());
}
static void join(rng& r)
{
    auto v = fill<std::vector<int>>(r, 6); auto dl = rnd(r, ",- x", 4), em = rnd(r, "<e>", 4);
    auto ref = [](auto& c, const std::string& d, const std::string& e) { std::ostringstream o; bool first = true; for (auto& x : c) { if (!first) o << d; first = false; o << x; } return first ? e : o.str(); };
    std::ostringstream o1, o2, o3, o4; o1 << kl::stream_join(v); VF_CHECK(o1.str() == ref(v, ", ", "."), "join-default", o1.str());
    o2 << kl::stream_join(v).set_delimiter(dl.c_str()).set_empty_string(em.c_str()); VF_CHECK(o2.str() == ref(v, dl, em), "join", o2.str() << " expected " << ref(v, dl, em));
    std::set<std::string> ss; for (auto n = r.below(4); n--;) ss.insert(rnd(r, "pqr", 3)); o3 << "[" << kl::stream_join(ss).set_delimiter(dl.c_str()) << "]" << v.size(); VF_CHECK(o3.str() == "[" + ref(ss, dl, ".") + "]" + std::to_string(v.size()), "join-set", o3.str());
    int arr[3] = {1, 2, 3}; std::ostringstream o5; o5 << kl::stream_join(arr); VF_CHECK(o5.str() == "1, 2, 3", "join-array", o5.str());
    auto pre = rnd(r, ">ab", 3); o4 << pre; auto oj = kl::make_outstream_joiner(o4, dl); std::copy(v.begin(), v.end(), oj); VF_CHECK(o4.str() == pre + ref(v, dl, ""), "ostream-joiner", o4.str());
    { std::ostringstream o, p; o << pre; auto j = kl::make_outstream_joiner(o, dl); auto other = kl::make_outstream_joiner(p, std::string(":")); std::string e1 = pre, e2; bool f1 = true, f2 = true; // two joiners, on streams others write to as well
      for (auto n = r.below(8); n--;) { auto x = rnd(r, "xyz", 3); switch (r.below(4)) { case 0: o << x; e1 += x; break; case 1: *other = x; ++other; e2 += (f2 ? "" : ":") + x; f2 = false; break; case 2: { auto k = j; *k++ = x; j = k; e1 += (f1 ? "" : dl) + x; f1 = false; break; } default: *j++ = x; e1 += (f1 ? "" : dl) + x; f1 = false; } }
      VF_CHECK(o.str() == e1 && p.str() == e2, "ostream-joiner-mixed", o.str() << " expected " << e1 << "; " << p.str() << " expected " << e2); }
    { std::ostringstream o; o << pre << kl::stream_join(v).set_delimiter(dl.c_str()) << pre << kl::stream_join(ss).set_empty_string(em.c_str()); VF_CHECK(o.str() == pre + ref(v, dl, ".") + pre + ref(ss, ", ", em), "join-twice", o.str()); }
    std::ostringstream o6; auto oj2 = std::copy(v.begin(), v.end(), kl::make_outstream_joiner(o6, "/")); for (int x : v) *oj2++ = x; auto vv = v; vv.insert(vv.end(), v.begin(), v.end()); VF_CHECK(o6.str() == ref(vv, "/", ""), "ostream-joiner-resume", o6.str());
    vf::count("ev.join"); if (v.empty()) vf::count("ev.join_empty"); vf::seen(o2.str() + o3.str());
}
template <class Ref, class Cat> struct it : kl::iterator_facade<it<Ref, Cat>, Ref, Cat>
{
    std::vector<std::pair<int, int>>* v = nullptr; std::ptrdiff_t i = 0;
    it() = default; it(std::vector<std::pair<int, int>>& c, std::ptrdiff_t k) : v(&c), i(k) {}
    Ref dereference() const { return (*v)[i]; } void increment() { ++i; } void decrement() { --i; } void advance(std::ptrdiff_t n) { i += n; }
    bool equal_to(const it& o) const { return i == o.i; } std::ptrdiff_t distance_to(const it& o) const { return i - o.i; }
};
template <class I> void facade(rng& r, std::vector<std::pair<int, int>>& c)
{
    std::ptrdiff_t n = (std::ptrdiff_t)c.size(), x = r.range(0, n), y = r.range(0, n); I b{c, 0}, e{c, n}, ix{c, x}, iy{c, y};
    VF_CHECK(e - b == n && std::distance(b, e) == n, "facade-distance", n); VF_CHECK(ix - iy == x - y && (iy + (ix - iy)) == ix && ((ix - iy) + iy) == ix && (ix - (ix - iy)) == iy, "facade-arith", x << "," << y);
    VF_CHECK((ix < iy) == (x < y) && (ix > iy) == (x > y) && (ix <= iy) == (x <= y) && (ix >= iy) == (x >= y) && (ix == iy) == (x == y) && (ix != iy) == (x != y), "facade-order", x << "," << y);
    if (x < n) { auto j = ix; auto o = j++; VF_CHECK(o == ix && j == (I{c, x + 1}), "facade-postinc", x); auto& rj = --j; VF_CHECK(&rj == &j && j == ix, "facade-predec", x); auto& rk = ++j; VF_CHECK(&rk == &j, "facade-preinc", x); o = j--; VF_CHECK(j == ix && o == (I{c, x + 1}), "facade-postdec", x);
        VF_CHECK((*ix).first == c[x].first && ix->second == c[x].second && b[x].first == c[x].first, "facade-deref", x);
        if constexpr (std::is_lvalue_reference_v<typename I::reference>) VF_CHECK(&*ix == &c[x] && &b[x] == &c[x] && &ix->first == &c[x].first, "facade-identity", x); }
    auto z = ix; auto& rz = (z += y - x); VF_CHECK(z == iy && &rz == &z, "facade-plus", x); z -= y - x; VF_CHECK(z == ix, "facade-minus", x);
    std::vector<std::pair<int, int>> copy(b, e); VF_CHECK(copy == c, "facade-copy", n); std::vector<std::pair<int, int>> rev; for (auto k = e; k != b;) rev.push_back(*--k); std::reverse(rev.begin(), rev.end()); VF_CHECK(rev == c, "facade-reverse", n);
    if (n) { auto sorted = std::is_sorted(c.begin(), c.end()); VF_CHECK(std::is_sorted(b, e) == sorted, "facade-alg", n); }
    kl::range<I> kr{b, e}; VF_CHECK((std::ptrdiff_t)kr.size() == n && kr.begin() == b && kr.end() == e, "range-iters", n); vf::count("ev.facade");
}
static void iters(rng& r)
{
    std::vector<std::pair<int, int>> c; for (auto n = r.below(9); n--;) c.emplace_back((int)r.below(5), (int)r.below(5));
    facade<it<std::pair<int, int>&, std::random_access_iterator_tag>>(r, c); facade<it<const std::pair<int, int>&, std::random_access_iterator_tag>>(r, c); facade<it<std::pair<int, int>, std::random_access_iterator_tag>>(r, c);
    const auto& cc = c; kl::range r1{c}; kl::range r2{cc}; VF_CHECK(r1.size() == c.size() && r1.begin() == c.begin() && r1.end() == c.end() && r2.begin() == c.cbegin() && r2.end() == c.cend(), "range-container", c.size());
    int a[3] = {1, 2, 3}; kl::range r3{a}; VF_CHECK(r3.size() == 3 && r3.begin() == a && r3.end() == a + 3, "range-array", 0); std::list<int> l(r.below(5)); kl::range r4{l}; VF_CHECK(r4.size() == l.size(), "range-list", l.size());
    kl::range<std::vector<int>::iterator> empty; (void)empty; int s = 0; for (int& x : r3) { x *= 2; s += x; } VF_CHECK(s == 12 && a[0] == 2, "range-iterate", s); vf::count("ev.range"); vf::seen(c.size());
}

// ---- C27
struct boom { int n; };
struct plan { unsigned exit; unsigned depth; };
static std::vector<int> g_log; // completed deferred actions
static int deferred_scope(rng& r, unsigned depth, std::vector<int>& expect, bool& threw)
{
    // defers id 3*depth.. ; expected order is reverse of registration, inner scopes first
    int base = (int)depth * 10; int state = 0; std::vector<int> mine; int ret = -1;
    auto how = r.below(6); bool second = r.coin();
    auto body = [&]() -> int {
        KL_DEFER(g_log.push_back(base + 1); g_log.push_back(state));
        mine.push_back(base + 1);
        state = 1;
        if (how == 0) { state = 11; return 100; }
        KL_DEFER(g_log.push_back(base + 2), g_log.push_back(state));
        mine.push_back(base + 2);
        state = 2;
        for (int i = 0; i < 2; ++i)
        {
            KL_DEFER({ g_log.push_back(base + 3); g_log.push_back(i); });
            if (how == 1) break;
            if (how == 2 && i == 0) continue;
            if (how == 3) { state = 33; throw boom{base}; }
        }
        if (depth && how == 4) { bool t2 = false; deferred_scope(r, depth - 1, expect, t2); if (t2) threw = true; }
        state = second ? 7 : 8;
        return 200;
    };
    std::vector<int> exp;
    try { ret = body(); } catch (boom& b) { VF_CHECK(b.n == base, "exception", "other exception"); threw = true; ret = -2; }
    // expected log of this scope
    switch (how)
    {
    case 0: exp = {base + 1, 11}; break;
    case 1: exp = {base + 3, 0}; break;
    case 2: case 4: case 5: exp = {base + 3, 0, base + 3, 1}; break;
    case 3: exp = {base + 3, 0}; break;
    }
    if (how == 0) { expect.insert(expect.end(), exp.begin(), exp.end()); VF_CHECK(ret == 100, "return", ret); }
    else
    {
        // inner scope's entries were appended to `expect` by the recursive call (how == 4), after the loop's
        if (how == 4 && depth) { // loop entries come before the inner scope's: insert in front of what the inner call added
            expect.insert(expect.end(), {base + 2, second ? 7 : 8, base + 1, second ? 7 : 8}); 
        }
        else { expect.insert(expect.end(), exp.begin(), exp.end()); int st = how == 3 ? 33 : second ? 7 : 8; expect.insert(expect.end(), {base + 2, st, base + 1, st}); }
        if (how != 3) VF_CHECK(ret == 200, "return", ret); else VF_CHECK(ret == -2, "throw", ret);
    }
    vf::count("ev.exit" + std::to_string(how));
    return (int)(how == 4 && depth);
}
// Destructors with deferred actions of their own, run while an exception is (or is not) passing through.
struct in_dtor
{
    rng& r; int depth; int id; std::vector<int>& expect;
    ~in_dtor()
    {
        auto how = r.below(4); std::vector<int> mine{id};
        {
            struct at_end { std::vector<int>& e; int id; ~at_end() { e.push_back(id); } } model{expect, id};
            try
            {
                struct at_end2 { std::vector<int>& e; int id; ~at_end2() { e.push_back(id); } } model2{expect, id + 1};
                KL_DEFER(g_log.push_back(id + 1));
                if (depth > 0) { in_dtor inner{r, depth - 1, id + 10, expect}; if (how == 1) throw boom{id}; }
                if (how == 2) throw boom{id};
            }
            catch (boom&) { vf::count("ev.caught_in_dtor"); }
            KL_DEFER(g_log.push_back(id));
            if (how == 3) return;
        }
    }
};
static void unwinding(rng& r)
{
    g_log.clear(); std::vector<int> expect; bool pass = r.chance(2, 3);
    try
    {
        struct at_end { std::vector<int>& e; int id; ~at_end() { e.push_back(id); } } model{expect, 5};
        KL_DEFER(g_log.push_back(5));
        in_dtor d{r, (int)r.below(3), 100, expect};
        if (pass) throw boom{7};
    }
    catch (boom& b)
    {
        VF_CHECK(b.n == 7, "unwinding", "other exception");
        { struct at_end { std::vector<int>& e; int id; ~at_end() { e.push_back(id); } } model{expect, 6}; KL_DEFER(g_log.push_back(6)); } // in a handler
        try { struct at_end { std::vector<int>& e; int id; ~at_end() { e.push_back(id); } } model{expect, 8}; KL_DEFER(g_log.push_back(8)); throw; } catch (boom&) {}
        vf::count("ev.in_handler");
    }
    VF_CHECK(g_log == expect, "defer-unwinding", "deferred actions in destructors or handlers ran in another order or number: " << g_log.size() << " vs " << expect.size());
    // switch, goto, nested defers inside a deferred action, and one whose action looks at what later ones did
    g_log.clear(); expect.clear(); auto c = r.below(4); int x = 0;
    {
        KL_DEFER(g_log.push_back(x));
        switch (c) { case 0: { KL_DEFER(g_log.push_back(10), x += 1); break; } case 1: { KL_DEFER(g_log.push_back(11), x += 2); goto out; } case 2: { KL_DEFER({ KL_DEFER(g_log.push_back(13)); g_log.push_back(12); x += 4; }); } break; default: KL_DEFER(g_log.push_back(14); x += 8); }
        { KL_DEFER(g_log.push_back(20)); }
        out: x += 100;
    }
    switch (c) { case 0: expect = {10, 20, 101}; break; case 1: expect = {11, 102}; break; case 2: expect = {12, 13, 20, 104}; break; default: expect = {14, 20, 108}; }
    VF_CHECK(g_log == expect, "defer-flow", "case " << c);
}
static int free_fn(const double& d) { return (int)d; }
struct counted { int id; static int copies; counted(int i) : id(i) {} counted(const counted& o) : id(o.id) { ++copies; } };
int counted::copies = 0;
static void one_flow(rng& r, std::uint64_t)
{
    // flat part: generic model with explicit recording of the loop entries before recursion
    unwinding(r); g_log.clear(); std::vector<int> expect; bool threw = false; rng copy = r;
    unsigned depth = 0; deferred_scope(r, depth, expect, threw);
    VF_CHECK(g_log == expect, "defer-order", "deferred actions ran in another order or number: " << g_log.size() << " vs " << expect.size());
    // nested scopes: every level adds one action; unwinding through n levels by an exception runs them inside out
    int levels = 1 + (int)r.below(6), at = (int)r.below(levels + 1); g_log.clear(); std::vector<int> e2; int shared = 0;
    std::function<void(int)> rec = [&](int k) { int local = k; KL_DEFER(g_log.push_back(local), ++shared); local = k * 2; if (k == at) throw boom{k}; if (k + 1 < levels) rec(k + 1); local = k * 3; };
    bool t = false; try { rec(0); } catch (boom&) { t = true; }
    VF_CHECK(t == (at < levels), "nested-throw", at << "/" << levels);
    if (t) for (int k = at; k >= 0; --k) e2.push_back(k * 2); else for (int k = levels - 1; k >= 0; --k) e2.push_back(k * 3);
    VF_CHECK(g_log == e2 && shared == (int)e2.size(), "defer-nested", "unwinding"); vf::count(t ? "ev.unwound" : "ev.fell_through");
    // match
    using V = std::variant<int, std::string, double, counted, std::vector<int>>;
    auto k = r.below(5); V v = k == 0 ? V{(int)r.below(99)} : k == 1 ? V{rnd(r, "ab", 5)} : k == 2 ? V{(double)r.below(50)} : k == 3 ? V{counted{(int)r.below(9)}} : V{std::vector<int>(r.below(4), 1)};
    std::array<int, 5> calls{}; counted::copies = 0; const void* seen = nullptr;
    auto res = kl::match(v, [&](int& x) { ++calls[0]; seen = &x; return (long)x; }, [&](std::string& x) { ++calls[1]; seen = &x; return (long)x.size() + 1000; }, [&](double& x) { ++calls[2]; seen = &x; return (long)x + 2000; }, [&](counted& x) { ++calls[3]; seen = &x; return (long)x.id + 3000; }, [&](std::vector<int>& x) { ++calls[4]; seen = &x; return (long)x.size() + 4000; });
    long want = k == 0 ? (long)std::get<int>(v) : k == 1 ? (long)std::get<1>(v).size() + 1000 : k == 2 ? (long)std::get<double>(v) + 2000 : k == 3 ? std::get<counted>(v).id + 3000 : (long)std::get<4>(v).size() + 4000;
    const void* addr = std::visit([](auto& x) -> const void* { return &x; }, v);
    VF_CHECK(res == want && calls[k] == 1 && calls[0] + calls[1] + calls[2] + calls[3] + calls[4] == 1 && seen == addr && counted::copies == 0, "match", "alternative " << k << " result " << res << " expected " << want);
    const V& cv = v; std::string tag = kl::match(cv, [&](const std::string&) { return std::string("s"); }, [&](const auto& x) { return seen == (const void*)&x ? std::string("other") : std::string("moved"); });
    VF_CHECK(tag == (k == 1 ? "s" : "other"), "match-generic", tag);
    int f = kl::match(v, kl::func_overload{free_fn}, [](int) { return -1; }, [](const std::string&) { return -2; }, [](const counted&) { return -3; }, [](const std::vector<int>&) { return -4; });
    VF_CHECK(f == (k == 0 ? -1 : k == 1 ? -2 : k == 2 ? (int)std::get<double>(v) : k == 3 ? -3 : -4), "match-func", f);
    if (k == 0) { int before = std::get<int>(v); kl::match(v, [](int& x) { x += 5; }, [](auto&) {}); VF_CHECK(std::get<int>(v) == before + 5, "match-write", "through handler"); }
    bool thrown = false; try { kl::match(v, [&](auto& x) -> int { (void)x; throw boom{1}; }); } catch (boom&) { thrown = true; } VF_CHECK(thrown, "match-throw", k);
    struct stateful { int* n; int operator()(int) { return ++*n; } int operator()(const std::string&) { return ++*n; } int operator()(double) { return ++*n; } int operator()(const counted&) { return ++*n; } int operator()(const std::vector<int>&) { return ++*n; } }; int cnt = 0; stateful sf{&cnt}; int m = kl::match(v, sf); VF_CHECK(m == 1 && cnt == 1, "match-stateful", m);
    vf::count("ev.alt" + std::to_string(k)); vf::seen(k * 100000 + levels * 1000 + at * 10 + (res % 7)); vf::seen(copy.next());
}
static void one_help(rng& r, std::uint64_t i) { switch (i % 4) { case 0: split(r); break; case 1: zip(r); break; case 2: join(r); break; default: iters(r); } }
int main(int c, char** v)
{
    bool flow = false; for (int i = 1; i + 1 < c; ++i) if (std::string(v[i]) == "--mode") flow = std::string(v[i + 1]) == "flow";
    return vf::run(c, v, [&](rng& r, std::uint64_t i) { flow ? one_flow(r, i) : one_help(r, i); });
}

// C11-C14: sessions of operations on resources, and the modification tracker on its own.
#include "resmodel.hpp"
using namespace rm;
// the tracker against a plain list of notifications
static void tracker_case(rng& r)
{
    using namespace kl::resources;
    modification_tracker t; struct ev { segs s; bool sub; std::uint64_t g; }; std::vector<ev> evs; std::set<segs> paths; std::string log;
    const bool big = r.chance(1, 100); // long histories over many paths
    auto rnd = [&] { static const char* k[] = {"a", "b", "ab", "a b", "0", "1", "10", "c", "/x", "a%"}; segs s; for (auto n = big && r.chance(1, 10) ? r.below(24) : r.below(5); n; --n) { std::string x = r.pick(k); if (big && r.coin()) x += std::to_string(r.below(30)); for (auto& ch : x) if (ch == '/') ch = '_'; s.push_back(x); } return s; };
    VF_CHECK((std::uint64_t)t.current() == 1, "tracker-start", (std::uint64_t)t.current());
    for (int i = 0, n = big ? 260 + (int)r.below(500) : 1 + (int)r.below(25); i < n; ++i)
    {
        segs s = paths.empty() || r.coin() ? rnd() : *std::next(paths.begin(), (std::ptrdiff_t)r.below(paths.size())); if (r.chance(1, 3) && !s.empty()) s.pop_back(); bool sub = r.coin(); auto c0 = t.current(); auto p = to_path(s);
        auto g = r.coin() ? t.notify_changed(p, sub) : t.notify_changed(p.view(), sub); paths.insert(s); log += " " + join(s) + (sub ? "/**" : "");
        VF_CHECK(g > c0 && t.current() == g, "tracker-advance", log); evs.push_back({s, sub, (std::uint64_t)g});
        for (int q = 0; q < (big ? 2 : 4); ++q)
        {
            segs w = q ? rnd() : *std::next(paths.begin(), (std::ptrdiff_t)r.below(paths.size())); if (r.chance(1, 3) && !w.empty()) w.pop_back(); else if (r.chance(1, 3)) w.push_back("a");
            std::uint64_t want = 0; for (auto& e : evs) { auto pre = [](const segs& a, const segs& b) { return a.size() <= b.size() && std::equal(a.begin(), a.end(), b.begin()); }; if (pre(w, e.s) || (e.sub && pre(e.s, w))) want = e.g; }
            auto wp = to_path(w); auto have = t.changed_at(wp);
            // the generation itself may be numbered differently; what counts is which of the notifications are covered
            VF_CHECK((std::uint64_t)have == want, "tracker-changed_at", "/" << join(w) << " is " << (std::uint64_t)have << ", expected " << want << " after" << log);
            for (auto& e : evs) { if (big && !r.chance(1, 40)) continue; auto old = (modification_tracker::generation)e.g; VF_CHECK(t.changed_since(wp, old) == (want > e.g) && t.changed_since(wp.view(), old) == (want > e.g), "tracker-changed_since", "/" << join(w) << " after" << log); }
        }
    }
    modification_tracker copy = t; auto pa = to_path({"a"}); auto before = copy.changed_at(pa); t.notify_changed(pa); VF_CHECK(copy.changed_at(pa) == before && copy.current() < t.current(), "tracker-copy", log);
    vf::seen(log); vf::count("ev.tracker"); if (big) vf::count("ev.tracker_long");
}
static void one(rng& r, std::uint64_t idx)
{
    if (is_prop("C13") && r.chance(1, 4)) { tracker_case(r); return; }
    auto& e = roots()[vf::mix(idx) % roots().size()];
    e.go(r); vf::count(std::string("root.") + e.name);
}
int main(int c, char** v) { return vf::run(c, v, one); }

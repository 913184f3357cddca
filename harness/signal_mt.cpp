// C04: many threads on shared signals. Per-thread event logs with stamps from a relaxed
// counter (no happens-before edges are added for ThreadSanitizer), merged and checked
// offline against the trace specification after the threads have joined.
#include "vf.hpp"
#include <kl/signal.hpp>
#include <algorithm>
#include <array>
#include <atomic>
#include <memory>
#include <thread>
#include <pthread.h>
#include <sched.h>

static thread_local vf::rng* t_rng = nullptr;
static void perturb()
{
    if (!t_rng) return;
    auto x = t_rng->below(64);
    if (x < 12) sched_yield();
    else if (x < 15) usleep((useconds_t)t_rng->below(60));
    else if (x < 22) for (volatile int i = 0; i < 200; ++i) {}
}
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
// delays around the library's critical sections
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { perturb(); return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { int r = __real_pthread_mutex_unlock(m); perturb(); return r; }
}

namespace {
using sig_t = kl::signal<void(int, const std::string&)>;
constexpr int MAXSLOTS = 4096;
constexpr int MAXSIG = 3;

std::atomic<std::uint64_t> g_clk{1};
std::uint64_t tick() { return g_clk.fetch_add(1, std::memory_order_relaxed); }

enum ev_t : std::uint8_t { EB, EE, CB, CE, CC, CR, DC, DR, BC, BR, UC, UR, AC, AR, ST, TH, NS };
struct event { std::uint64_t t; ev_t k; int e; int slot; int sig; int x; };

struct slot_aux
{
    std::atomic<int> running{0}, destroyed{0};
};
slot_aux g_aux[MAXSLOTS];
std::atomic<int> g_next_slot{0};
std::atomic<int> g_next_em{0};
std::atomic<int> g_monitor_fail{0};
int g_slot_sig[MAXSLOTS];    // written by the connecting thread before connect
bool g_slot_front[MAXSLOTS];

struct tok
{
    int id; int payload; // plain memory: destruction must be ordered after the last use
    explicit tok(int i) : id{i}, payload{i * 3 + 1} {}
    tok(const tok&) = delete;
    ~tok()
    {
        payload = -1;
        if (g_aux[id].running.load(std::memory_order_relaxed) != 0) g_monitor_fail.fetch_or(1, std::memory_order_relaxed);
        if (g_aux[id].destroyed.fetch_add(1, std::memory_order_relaxed) != 0) g_monitor_fail.fetch_or(2, std::memory_order_relaxed);
    }
};

struct mt_boom {};
struct thr;
thread_local thr* T = nullptr;
struct blk { kl::connection::blocker b; int id; };

struct shared
{
    std::vector<std::unique_ptr<sig_t>> sigs;
    int nthreads = 0;
    bool throws = false, stops = false, discall = true, blocks = true, nested = true;
};
shared* S = nullptr;

struct thr
{
    vf::rng r{1};
    std::vector<event> log;
    std::vector<std::pair<kl::connection, int>> conns;
    std::vector<std::unique_ptr<blk>> blks;
    std::vector<int> em; // emission stack
    int budget = 0;
    void ev(ev_t k, int e, int slot, int sig, int x = 0) { log.push_back({tick(), k, e, slot, sig, x}); }
    void act();
    void emit(int sg);
    void connect(int sg, bool front);
};

struct callee
{
    std::shared_ptr<tok> t;
    void operator()(int a, const std::string& s) const
    {
        thr* me = T;
        int id = t->id;
        int e = me->em.empty() ? -1 : me->em.back();
        me->ev(CB, e, id, -1, a);
        g_aux[id].running.fetch_add(1, std::memory_order_relaxed);
        struct end { int id, e; ~end() { g_aux[id].running.fetch_sub(1, std::memory_order_relaxed); T->ev(CE, e, id, -1); } } en{id, e};
        if (t->payload != id * 3 + 1) g_monitor_fail.fetch_or(4, std::memory_order_relaxed);
        if (s != "payload string that lives on the heap") g_monitor_fail.fetch_or(8, std::memory_order_relaxed);
        perturb();
        if (me->em.size() < 3 && me->budget > 0 && me->r.chance(1, 3)) me->act();
        if (S->stops && me->r.chance(1, 25)) { me->ev(ST, e, id, -1); kl::this_signal::stop_emission(); }
        if (S->throws && me->r.chance(1, 40)) { me->ev(TH, e, id, -1); throw mt_boom{}; }
    }
};

void thr::connect(int sg, bool front)
{
    int id = g_next_slot.fetch_add(1, std::memory_order_relaxed);
    if (id >= MAXSLOTS) return;
    g_slot_sig[id] = sg; g_slot_front[id] = front;
    callee c{std::make_shared<tok>(id)};
    ev(CC, -1, id, sg, front);
    kl::connection con = S->sigs[sg]->connect(std::move(c), front ? kl::at_front : kl::at_back);
    ev(CR, -1, id, sg, front);
    if (r.chance(3, 4)) conns.emplace_back(std::move(con), id);
}
void thr::emit(int sg)
{
    int e = g_next_em.fetch_add(1, std::memory_order_relaxed);
    em.push_back(e);
    ev(EB, e, -1, sg);
    try { (*S->sigs[sg])(e, "payload string that lives on the heap"); }
    catch (const mt_boom&) { ev(TH, e, -1, sg); }
    ev(EE, e, -1, sg);
    em.pop_back();
}
void thr::act()
{
    if (budget-- <= 0) return;
    int sg = (int)r.below(S->sigs.size());
    unsigned w = (unsigned)r.below(100);
    if (w < 30) { if (em.empty() || S->nested) emit(sg); }
    else if (w < 55) connect(sg, r.chance(1, 3));
    else if (w < 80)
    {
        if (!conns.empty())
        {
            std::size_t i = r.below(conns.size());
            int id = conns[i].second;
            kl::connection c = conns[i].first;
            if (r.chance(3, 4)) { conns[i] = std::move(conns.back()); conns.pop_back(); }
            ev(DC, -1, id, -1);
            if (r.chance(1, 4)) { kl::scoped_connection sc{std::move(c)}; } else c.disconnect();
            ev(DR, -1, id, -1);
        }
    }
    else if (w < 84) { if (S->discall && r.chance(1, 3)) { ev(AC, -1, -1, sg); S->sigs[sg]->disconnect_all_slots(); ev(AR, -1, -1, sg); } }
    else if (w < 92)
    {
        if (!S->blocks) return;
        if (!conns.empty() && blks.size() < 4)
        {
            auto& c = r.pick(conns);
            ev(BC, -1, c.second, -1);
            blks.push_back(std::unique_ptr<blk>(new blk{c.first.get_blocker(), c.second}));
            ev(BR, -1, c.second, -1);
        }
    }
    else if (w < 97)
    {
        if (!blks.empty())
        {
            std::size_t i = r.below(blks.size()); int id = blks[i]->id;
            ev(UC, -1, id, -1); blks.erase(blks.begin() + i); ev(UR, -1, id, -1);
        }
    }
    else
    {
        auto n = S->sigs[sg]->num_slots();
        (void)S->sigs[sg]->empty();
        ev(NS, -1, -1, sg, (int)n);
        if (!conns.empty()) { auto& c = r.pick(conns); (void)c.first.connected(); }
    }
}

struct em_rec { int sig = -1; std::uint64_t b = 0, e = 0; std::vector<std::pair<std::uint64_t, int>> calls; std::vector<std::uint64_t> prev_end; std::uint64_t last_end = 0; std::uint64_t stop = 0; bool thrown = false; };

void one(vf::rng& r, std::uint64_t idx)
{
    shared sh;
    S = &sh;
    g_next_slot = 0; g_next_em = 0; g_monitor_fail = 0;
    for (int i = 0; i < MAXSLOTS; ++i) { if (g_aux[i].destroyed.load() == 0 && i > 64) break; g_aux[i].running = 0; g_aux[i].destroyed = 0; }
    int ns = 1 + (int)r.below(2);
    for (int i = 0; i < ns; ++i) sh.sigs.push_back(std::make_unique<sig_t>());
    sh.throws = r.chance(1, 4); sh.stops = r.chance(1, 4); sh.discall = r.chance(1, 2); sh.blocks = r.chance(2, 3); sh.nested = r.coin();
    int nt = 2 + (int)r.below(4);
    sh.nthreads = nt;
    std::vector<std::unique_ptr<thr>> ts;
    for (int i = 0; i <= nt; ++i)
    {
        ts.push_back(std::make_unique<thr>());
        ts.back()->r = vf::rng{r.next()};
        ts.back()->budget = 15 + (int)r.below(vf::st().thorough ? 60 : 35);
        ts.back()->log.reserve(4000);
    }
    thr& mt = *ts[nt];
    T = &mt;
    // slots present from the start, some of whose connections are shared by several threads
    unsigned pre = (unsigned)r.below(7);
    for (unsigned i = 0; i < pre; ++i)
    {
        mt.connect((int)r.below(ns), r.coin());
        if (!mt.conns.empty())
            for (int k = 0; k < nt; ++k) if (r.chance(1, 2)) ts[k]->conns.push_back(mt.conns.back());
    }
    {
        std::atomic<int> go{0};
        std::vector<std::thread> th;
        std::vector<vf::rng> pr;
        for (int i = 0; i < nt; ++i) pr.emplace_back(r.next());
        for (int i = 0; i < nt; ++i)
            th.emplace_back([&, i] {
                T = ts[i].get();
                go.fetch_add(1, std::memory_order_relaxed);
                while (go.load(std::memory_order_relaxed) < nt) sched_yield();
                t_rng = &pr[i];
                while (T->budget > 0) T->act();
                t_rng = nullptr;
            });
        for (auto& t : th) t.join();
    }
    T = &mt;
    for (int i = 0; i <= nt; ++i) while (!ts[i]->blks.empty()) { int id = ts[i]->blks.back()->id; ts[i]->ev(UC, -1, id, -1); ts[i]->blks.pop_back(); ts[i]->ev(UR, -1, id, -1); }
    sh.throws = sh.stops = false;
    mt.budget = 0;
    std::vector<int> final_em(ns);
    std::vector<std::size_t> final_n(ns);
    for (int s = 0; s < ns; ++s) { final_em[s] = g_next_em.load(); mt.emit(s); final_n[s] = sh.sigs[s]->num_slots(); }
    const int nslots = std::min(g_next_slot.load(), MAXSLOTS);

    // ---- offline check
    std::vector<event> all;
    for (auto& t : ts) all.insert(all.end(), t->log.begin(), t->log.end());
    std::sort(all.begin(), all.end(), [](const event& a, const event& b) { return a.t < b.t; });
    constexpr std::uint64_t INF = ~0ull;
    struct srec { std::uint64_t cc = INF, cr = INF, may = INF, must = INF; std::vector<std::array<std::uint64_t, 4>> blocks; std::vector<std::pair<std::uint64_t, std::uint64_t>> bopen; };
    std::vector<srec> sl(nslots);
    std::map<int, em_rec> ems;
    struct ar { int sig; std::uint64_t c, r; };
    std::vector<ar> alls; std::map<int, std::uint64_t> open_all;
    // per-thread pass for pairing call/return events
    for (auto& tp : ts)
    {
        std::map<int, std::uint64_t> pend_b, pend_u; std::uint64_t ac = 0;
        std::map<int, std::vector<std::pair<std::uint64_t, std::uint64_t>>> bs;
        std::uint64_t bc = 0;
        for (auto& e : tp->log)
            switch (e.k)
            {
            case EB: ems[e.e].sig = e.sig; ems[e.e].b = e.t; ems[e.e].last_end = e.t; break;
            case EE: ems[e.e].e = e.t; break;
            case CB: { auto& m = ems[e.e]; m.calls.emplace_back(e.t, e.slot); m.prev_end.push_back(m.last_end); if (e.x != e.e) vf::fail("args", "slot called with the arguments of another emission"); if (m.stop && m.stop < e.t) vf::fail("stop", "call after stop_emission in the same emission"); break; }
            case CE: ems[e.e].last_end = e.t; break;
            case ST: ems[e.e].stop = e.t; break;
            case TH: ems[e.e].thrown = true; break;
            case CC: sl[e.slot].cc = e.t; break;
            case CR: sl[e.slot].cr = e.t; break;
            case DC: sl[e.slot].may = std::min(sl[e.slot].may, e.t); break;
            case DR: sl[e.slot].must = std::min(sl[e.slot].must, e.t); break;
            case AC: ac = e.t; break;
            case AR: alls.push_back({e.sig, ac, e.t}); break;
            case BC: bc = e.t; break;
            case BR: bs[e.slot].emplace_back(bc, e.t); break;
            case UC: pend_u[e.slot] = e.t; break;
            case UR: { auto& v = bs[e.slot]; auto p = v.front(); v.erase(v.begin()); // which blocker of this thread ends is not tracked: use the safe pairing below
                       sl[e.slot].blocks.push_back({p.first, p.second, pend_u[e.slot], e.t}); break; }
            case NS: break;
            }
        // threads may hold several blockers of one slot: merge into safe bounds
        (void)pend_b;
    }
    for (auto& a : alls)
        for (int i = 0; i < nslots; ++i)
            if (g_slot_sig[i] == a.sig)
            {
                if (a.r > sl[i].cc) sl[i].may = std::min(sl[i].may, a.c > sl[i].cc ? a.c : sl[i].cc);
                if (a.c > sl[i].cr) sl[i].must = std::min(sl[i].must, a.r);
            }
    std::uint64_t shape = 0;
    for (auto& e : all) shape = vf::mix(shape * 31 + e.k * 7 + (unsigned)e.slot);
    vf::seen(shape);
    vf::count("ev.total", all.size());
    auto desc = [&](int e) {
        std::ostringstream o; auto& m = ems[e];
        o << "emission " << e << " sig " << m.sig << " [" << m.b << "," << m.e << "] calls:";
        for (std::size_t i = 0; i < m.calls.size(); ++i) o << " " << m.calls[i].second << "@" << m.calls[i].first;
        return o.str();
    };
    auto before = [&](int x, int y) { // must x precede y in the list?
        if (g_slot_front[x] && !g_slot_front[y]) return true;
        if (!g_slot_front[x] && g_slot_front[y]) return false;
        if (!g_slot_front[x]) return sl[x].cr < sl[y].cc;
        return sl[y].cr < sl[x].cc;
    };
    std::set<std::pair<int, int>> prec;
    std::uint64_t concurrent = 0;
    for (auto& [eid, m] : ems)
    {
        vf::count("ev.emissions");
        vf::count("ev.calls", m.calls.size());
        std::set<int> called;
        for (std::size_t i = 0; i < m.calls.size(); ++i)
        {
            auto [t, s] = m.calls[i];
            if (!called.insert(s).second) vf::fail("twice", "slot " + std::to_string(s) + " called twice: " + desc(eid));
            if (g_slot_sig[s] != m.sig) vf::fail("foreign", "slot of another signal called: " + desc(eid));
            if (sl[s].cc > m.calls[0].first || sl[s].cc > t) vf::fail("late-connect", "slot " + std::to_string(s) + " connected (from " + std::to_string(sl[s].cc) + ") after the emission's first call: " + desc(eid));
            if (sl[s].must < m.prev_end[i]) vf::fail("after-disconnect", "slot " + std::to_string(s) + " called although its disconnect completed at " + std::to_string(sl[s].must) + ": " + desc(eid));
            if (sl[s].may < t) vf::count("ev.racing_disconnect");
            for (std::size_t j = 0; j < i; ++j)
            {
                int p = m.calls[j].second;
                if (before(s, p)) vf::fail("order", "slots " + std::to_string(p) + "," + std::to_string(s) + " called in the wrong order: " + desc(eid));
                prec.insert({p, s});
            }
        }
        // definite blocking: count of definitely-live blockers over the evaluation window
        for (std::size_t i = 0; i < m.calls.size(); ++i)
        {
            auto [t, s] = m.calls[i];
            // with several blockers per thread the front pairing gives, for each, an interval contained
            // in the union; a blocker created at p.second lives at least until the k-th unblock call
            for (auto& b : sl[s].blocks)
                if (b[1] < m.prev_end[i] && b[2] > t && sl[s].blocks.size() == 1)
                    vf::fail("blocked", "slot " + std::to_string(s) + " called while blocked: " + desc(eid));
        }
        if (!m.stop && !m.thrown)
            for (int i = 0; i < nslots; ++i)
            {
                if (g_slot_sig[i] != m.sig || called.count(i)) continue;
                if (!(sl[i].cr < m.b && sl[i].may > m.e)) continue;
                bool maybe_blocked = false;
                for (auto& b : sl[i].blocks) if (b[0] < m.e && b[3] > m.b) maybe_blocked = true;
                if (sl[i].blocks.size() > 1) { // several blockers: be conservative over their whole span
                    std::uint64_t lo = INF, hi = 0; for (auto& b : sl[i].blocks) { lo = std::min(lo, b[0]); hi = std::max(hi, b[3]); }
                    if (lo < m.e && hi > m.b) maybe_blocked = true; }
                if (!maybe_blocked)
                    vf::fail("missed", "slot " + std::to_string(i) + " connected throughout but not called: " + desc(eid));
                else vf::count("ev.blocked_skip");
            }
    }
    for (auto& p : prec)
        if (p.first < p.second && prec.count({p.second, p.first}))
            vf::fail("order-inconsistent", "slots " + std::to_string(p.first) + " and " + std::to_string(p.second) + " called in both orders");
    (void)concurrent;
    // quiescent state
    for (int s = 0; s < ns; ++s)
    {
        auto& m = ems[final_em[s]];
        std::set<int> called;
        for (auto& c : m.calls) called.insert(c.second);
        if (final_n[s] != called.size()) vf::fail("final-count", "num_slots " + std::to_string(final_n[s]) + " but final emission called " + std::to_string(called.size()));
        for (int i = 0; i < nslots; ++i)
            if (g_slot_sig[i] == s)
            {
                if (sl[i].may == INF && !called.count(i)) vf::fail("final-missing", "slot " + std::to_string(i) + " lost");
                if (sl[i].must != INF && called.count(i)) vf::fail("final-ghost", "slot " + std::to_string(i) + " called after disconnect");
                if (called.count(i) && g_aux[i].destroyed.load()) vf::fail("final-destroyed", "live slot destroyed");
            }
        for (auto& t : ts)
            for (auto& c : t->conns)
                if (g_slot_sig[c.second] == s && c.first.connected() != (called.count(c.second) > 0))
                    vf::fail("final-handle", "connection state of slot " + std::to_string(c.second) + " disagrees with emission");
    }
    int mf = g_monitor_fail.load();
    if (mf) vf::fail("token-monitor", "token monitor flags " + std::to_string(mf) + " (1 destroyed while running, 2 destroyed twice, 4 payload corrupted, 8 argument corrupted)");
    if (idx < 2) vf::sample(std::to_string(nt) + " threads, " + std::to_string(all.size()) + " events, " + std::to_string(nslots) + " slots, final " + desc(final_em[0]), 2);
    if (r.coin()) { for (auto& t : ts) t->conns.clear(); sh.sigs.clear(); } else { sh.sigs.clear(); for (auto& t : ts) { for (auto& c : t->conns) if (c.first.connected()) vf::fail("dead-handle", "connected after signal destruction"); t->conns.clear(); } }
    for (int i = 0; i < nslots; ++i)
        if (g_aux[i].destroyed.load() != 1) { vf::fail("token-leak", "slot " + std::to_string(i) + " destroyed " + std::to_string(g_aux[i].destroyed.load()) + " times"); break; }
    for (int i = 0; i < nslots; ++i) { g_aux[i].destroyed = 0; g_aux[i].running = 0; }
    T = nullptr; S = nullptr;
}
} // namespace

int main(int argc, char** argv) { return vf::run(argc, argv, one); }

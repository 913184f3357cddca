// C01/C02/C03: online monitor for single-threaded signal histories.
// A reference model of "connected slots in order" predicts, at every observed event (a slot
// is called, an emission returns), what has to happen next; tokens captured by the callables
// account for lifetimes; handle states are compared after every operation.
#include "vf.hpp"
#include <pthread.h>
#include <functional>
#include <kl/signal.hpp>
#include <algorithm>
#include <csignal>
#include <memory>
#include <sys/wait.h>

namespace {
struct boom { int id; };
using sig_t = kl::signal<void(int, std::string)>;

enum kind_t { k_func, k_lambda_ref, k_mem_ptr, k_cmem_ptr, k_mem_ref, k_cmem_ref, k_mem_shared, k_cmem_shared,
              k_mem_weak, k_cmem_weak, k_chain, k_plus, k_count };

struct world;
world* W;

struct slot_info
{
    int id;
    int sig = -1;          // index into world.sigs (valid while connected)
    bool connected = false;
    int blocks = 0;        // live blockers
    int handles = 0;       // live non-empty connection/scoped handles
    int blockers = 0;      // live blocker handles
    kind_t kind = k_func;
    int chain_to = -1;     // k_chain: signal target (unique id of signal)
    bool weak_alive = true;
    int running = 0;
    int destroyed = 0;
    bool has_token = true;
    std::size_t hash = 0;
    bool token_act = false; // destructor of the captured token re-enters the library
    bool in_dtor = false;
};

void token_destroyed(int id);

struct token
{
    int id;
    explicit token(int i) : id{i} {}
    token(const token&) = delete;
    ~token() { token_destroyed(id); }
};

void on_call(int id, int a, std::string s);

struct receiver
{
    int id;
    std::unique_ptr<token> tok; // only for shared receivers
    void call(int a, std::string s) { on_call(id, a, std::move(s)); }
    void ccall(int a, std::string s) const { on_call(id, a, std::move(s)); }
};

struct frame
{
    int sig;
    std::vector<int> snap;
    std::size_t cur = 0;
    bool stopped = false;
    bool chained = false; // pushed by the model for a signal-to-signal slot
    int a; std::string s;
    int running_slot = -1;
};

struct conn_h { kl::connection c; int id = -1; bool emptied = false; bool busy = false; };
struct scon_h { kl::scoped_connection c; int id = -1; };
struct blk_h { kl::connection::blocker b; int id = -1; };

struct world
{
    vf::rng& r;
    std::string prop;
    std::vector<slot_info> slots;
    // signal slots: sigs[i] may be replaced (moved); model lists are per index
    std::vector<std::unique_ptr<sig_t>> sigs;
    std::vector<std::vector<int>> order; // connected-or-formerly-connected order per signal index
    std::vector<std::unique_ptr<conn_h>> conns;
    std::vector<std::unique_ptr<scon_h>> scons;
    std::vector<std::unique_ptr<blk_h>> blks;
    std::vector<std::unique_ptr<receiver>> recs;
    std::map<int, std::shared_ptr<receiver>> weak_owner;
    std::vector<frame> frames;
    int depth = 0, budget = 0;
    bool has_chain_targets = false; // chain target must not move/die
    bool dtor_acts = false;
    bool no_chain = false;
    std::string trace;
    bool bad = false;
    unsigned maxdepth = 0;
    std::uint64_t shape = 0;

    explicit world(vf::rng& rr) : r{rr} {}

    void note(const std::string& s)
    {
        if (trace.size() < 6000) { trace += s; trace += ' '; }
        shape = vf::mix(shape ^ vf::hash_bytes(std::string_view(s).substr(0, s.find_first_of("#0123456789"))));
    }
    void bad_(const char* key, const std::string& msg)
    {
        if (bad) return;
        bad = true;
        vf::fail(key, msg + " | trace: " + trace);
    }

    // ---- model
    std::size_t model_count(int s) const
    {
        std::size_t n = 0;
        for (int id : order[s]) if (slots[id].connected) ++n;
        return n;
    }
    // next slot that has to be visibly called in the innermost explicit emission; -1: it must return
    int advance()
    {
        while (true)
        {
            frame& f = frames.back();
            if (f.stopped) f.cur = f.snap.size();
            if (f.cur >= f.snap.size())
            {
                if (!f.chained) return -1;
                frames.pop_back();
                frames.back().running_slot = -1;
                continue;
            }
            slot_info& s = slots[f.snap[f.cur]];
            if (!s.connected || s.blocks > 0) { ++f.cur; continue; }
            if ((s.kind == k_mem_weak || s.kind == k_cmem_weak) && !s.weak_alive) { ++f.cur; continue; }
            if (s.kind == k_chain)
            {
                ++f.cur;
                f.running_slot = s.id;
                frame g;
                g.sig = s.chain_to; g.chained = true; g.a = f.a; g.s = f.s;
                g.snap = snapshot(g.sig);
                frames.push_back(std::move(g));
                if (frames.size() > 200) { bad_("model-depth", "model recursion"); return -1; }
                continue;
            }
            return s.id;
        }
    }
    std::vector<int> snapshot(int s) const
    {
        std::vector<int> v;
        for (int id : order[s]) if (slots[id].connected) v.push_back(id);
        return v;
    }
    void model_disconnect(int id)
    {
        auto& s = slots[id];
        s.connected = false;
    }

    // ---- operations
    int new_slot(int sg, bool front)
    {
        int id = (int)slots.size();
        slot_info si; si.id = id; si.sig = sg;
        slots.push_back(si);
        auto* sl = &slots.back();
        kl::connect_position at = front ? kl::at_front : kl::at_back;
        kind_t k = (kind_t)r.below(k_count);
        if (r.chance(1, 2)) k = k_func;
        if (k == k_chain && (no_chain || sg == 0)) k = k_func;
        if (k == k_plus && front) k = k_func;
        sl->kind = k;
        sl->connected = true;
        sl->token_act = dtor_acts && r.chance(1, 3);
        kl::connection c;
        sig_t& S = *sigs[sg];
        switch (k)
        {
        case k_func: case k_plus:
        {
            auto t = std::make_shared<token>(id);
            auto fn = [t](int a, std::string s) { on_call(t->id, a, std::move(s)); };
            t.reset();
            if (k == k_plus) c = (S += std::move(fn)); else c = front ? S.connect(std::move(fn), at) : S.connect(std::move(fn));
            break;
        }
        case k_lambda_ref:
        {
            auto t = std::make_shared<token>(id);
            auto fn = [t](const int& a, const std::string& s) { on_call(t->id, a, s); };
            t.reset();
            c = S.connect(fn, at);
            break;
        }
        case k_mem_ptr: case k_cmem_ptr: case k_mem_ref: case k_cmem_ref:
        {
            recs.push_back(std::unique_ptr<receiver>(new receiver{id, nullptr}));
            receiver* p = recs.back().get();
            sl->has_token = false;
            if (k == k_mem_ptr) c = S.connect(&receiver::call, p, at);
            else if (k == k_cmem_ptr) c = S.connect(&receiver::ccall, static_cast<const receiver*>(p), at);
            else if (k == k_mem_ref) c = S.connect(&receiver::call, *p, at);
            else c = S.connect(&receiver::ccall, static_cast<const receiver&>(*p), at);
            break;
        }
        case k_mem_shared: case k_cmem_shared:
        {
            auto p = std::shared_ptr<receiver>(new receiver{id, std::make_unique<token>(id)});
            if (k == k_mem_shared) c = S.connect(&receiver::call, std::move(p), at);
            else c = S.connect(&receiver::ccall, std::shared_ptr<const receiver>(std::move(p)), at);
            break;
        }
        case k_mem_weak: case k_cmem_weak:
        {
            auto p = std::shared_ptr<receiver>(new receiver{id, nullptr});
            sl->has_token = false;
            weak_owner[id] = p;
            if (k == k_mem_weak) c = S.connect(&receiver::call, std::weak_ptr<receiver>(p), at);
            else c = S.connect(&receiver::ccall, std::weak_ptr<const receiver>(p), at);
            break;
        }
        case k_chain:
        {
            sl->has_token = false;
            sl->chain_to = (int)r.below(sg); // acyclic: only lower-numbered targets
            has_chain_targets = true;
            c = S.connect(*sigs[sl->chain_to], at);
            break;
        }
        default: break;
        }
        sl = &slots[id];
        sl->hash = c.hash();
        if (front) order[sg].insert(order[sg].begin(), id); else order[sg].push_back(id);
        vf::count(std::string("connect.kind") + std::to_string((int)k));
        if (!c.connected()) bad_("connect.not-connected", "fresh connection not connected");
        if (r.chance(2, 3)) add_conn(std::move(c), id);
        return id;
    }
    void add_conn(kl::connection c, int id)
    {
        auto h = std::make_unique<conn_h>();
        h->c = std::move(c); h->id = id;
        if (id >= 0) slots[id].handles++;
        conns.push_back(std::move(h));
    }
    void drop_conn(std::size_t i)
    {
        int id = conns[i]->emptied ? -1 : conns[i]->id;
        if (id >= 0) slots[id].handles--;
        auto h = std::move(conns[i]);
        conns.erase(conns.begin() + i);
        h.reset();
    }
    void disc_conn(std::size_t i)
    {
        conn_h& h = *conns[i];
        note("disc#" + std::to_string(h.id));
        if (h.id >= 0 && !h.emptied)
        {
            model_disconnect(h.id);
            slots[h.id].handles--;
        }
        h.emptied = true;
        h.id = -1;
        // destruction of the callable may re-enter: no references into containers after this
        if (r.coin())
        {
            h.busy = true;
            h.c.disconnect();
            h.busy = false;
            if (h.c.connected() || !(h.c == kl::connection{})) bad_("disconnect.still-connected", "connected after disconnect");
            vf::count("op.disconnect");
            return;
        }
        kl::connection tmp = std::move(h.c);
        tmp.disconnect();
        if (tmp.connected()) bad_("disconnect.still-connected", "connected after disconnect");
        vf::count("op.disconnect");
    }

    void check_handles()
    {
        if (bad) return;
        for (std::size_t s = 0; s < sigs.size(); ++s)
        {
            auto n = sigs[s]->num_slots();
            if (n != model_count((int)s))
                return bad_("num_slots", "signal " + std::to_string(s) + " has " + std::to_string(n) + " slots, model " + std::to_string(model_count((int)s)));
            if (sigs[s]->empty() != (n == 0)) return bad_("empty", "empty() disagrees");
        }
        for (auto& h : conns)
        {
            bool want = h->id >= 0 && slots[h->id].connected;
            if (h->c.connected() != want)
                return bad_("connected", "connection of slot " + std::to_string(h->id) + " reports " + std::to_string(h->c.connected()));
        }
        for (auto& h : scons)
        {
            bool want = h->id >= 0 && slots[h->id].connected;
            if (h->c.get().connected() != want) return bad_("scoped.connected", "scoped connection state");
        }
        if (!scons.empty())
        {
            auto& a = *r.pick(scons); auto& b = *r.pick(scons);
            if (a.id >= 0 && b.id >= 0)
            {
                bool eq = a.id == b.id;
                if ((a.c == b.c) != eq || (a.c.get() == b.c.get()) != eq) return bad_("scoped.eq", "equality of scoped connections");
                if (std::hash<kl::scoped_connection>{}(a.c) != slots[a.id].hash) return bad_("scoped.hash", "hash of a scoped connection");
                if ((a.c < b.c) != (a.c.get() < b.c.get()) || (eq ? a.c < b.c : (a.c < b.c) == (b.c < a.c))) return bad_("scoped.less", "ordering of scoped connections");
            }
        }
        for (auto& h : blks)
            if (h->b.blocking() != (h->id >= 0)) return bad_("blocker.blocking", "blocking() wrong");
        if (conns.size() >= 2)
        {
            auto& a = *r.pick(conns); auto& b = *r.pick(conns);
            if (a.id >= 0 && b.id >= 0)
            {
                bool eq = a.id == b.id;
                if ((a.c == b.c) != eq) return bad_("conn.eq", "equality");
                if (eq && (a.c.hash() != b.c.hash() || std::hash<kl::connection>{}(a.c) != a.c.hash())) return bad_("conn.hash", "hash");
                if (eq && (a.c < b.c || b.c < a.c)) return bad_("conn.less", "ordering of equal");
                if (!eq && (a.c < b.c) == (b.c < a.c)) return bad_("conn.less", "ordering of different");
            }
        }
    }
    void check_lifetimes()
    {
        if (bad) return;
        for (auto& s : slots)
        {
            if (!s.has_token) continue;
            if (s.destroyed > 1) return bad_("token.double", "callable destroyed twice");
            if (s.connected && s.destroyed) return bad_("token.early", "callable of connected slot " + std::to_string(s.id) + " destroyed");
            if (depth == 0 && !s.connected && s.handles == 0 && s.blockers == 0 && !s.destroyed)
                return bad_("token.leak", "callable of slot " + std::to_string(s.id) + " not destroyed although unreachable");
        }
    }

    void op_connect() {
        int sg = (int)r.below(sigs.size()); bool fr = r.chance(1, 3);
        note((fr ? "connF@" : "connB@") + std::to_string(sg));
        int id = new_slot(sg, fr);
        trace += "=#" + std::to_string(id) + " ";
        vf::count("op.connect");
    }
    void op_connect_null() {
        note("connNull");
        int sg = (int)r.below(sigs.size());
        auto n = sigs[sg]->num_slots();
        kl::connection c = sigs[sg]->connect(sig_t::slot_type{});
        if (c.connected() || !(c == kl::connection{}) || sigs[sg]->num_slots() != n) bad_("connect.null", "empty callable connected");
        c.disconnect();
        vf::count("op.connect_null");
    }
    void op_handle()
    {
        switch (r.below(16))
        {
        case 0: if (!conns.empty()) disc_conn(r.below(conns.size())); break;
        case 1: if (!conns.empty()) disc_conn(r.below(conns.size())); break;
        case 2: // copy
            if (!conns.empty()) { auto& h = *r.pick(conns); note("cpy#" + std::to_string(h.id)); kl::connection c{h.c}; bool e = h.emptied; int id = h.id; add_conn(std::move(c), e ? -1 : id); if (e) conns.back()->emptied = true; }
            break;
        case 3: // copy-assign
            if (conns.size() >= 2) {
                std::size_t i = r.below(conns.size()), j = r.below(conns.size());
                note("asg#" + std::to_string(conns[i]->id) + "=" + std::to_string(conns[j]->id));
                int oi = conns[i]->id, nj = conns[j]->id;
                if (nj >= 0) slots[nj].handles++;
                if (oi >= 0) slots[oi].handles--;
                conns[i]->id = nj; conns[i]->emptied = conns[j]->emptied;
                auto& ci = conns[i]->c; auto& cj = conns[j]->c;
                conns[i]->busy = conns[j]->busy = true; // not to be touched by destructors running in here
                auto *hi = conns[i].get(), *hj = conns[j].get();
                ci = cj; // may destroy a callable
                hi->busy = hj->busy = false;
            }
            break;
        case 4: // swap
            if (conns.size() >= 2) {
                std::size_t i = r.below(conns.size()), j = r.below(conns.size());
                note("swpc"); swap(conns[i]->c, conns[j]->c); std::swap(conns[i]->id, conns[j]->id); std::swap(conns[i]->emptied, conns[j]->emptied);
            }
            break;
        case 5: if (!conns.empty()) { std::size_t i = r.below(conns.size()); note("drop#" + std::to_string(conns[i]->id)); drop_conn(i); } break;
        case 6: // scoped from copy of a connection
            if (!conns.empty() && scons.size() < 6) {
                auto& h = *r.pick(conns); note("scoped#" + std::to_string(h.id));
                auto s = std::make_unique<scon_h>(); s->id = h.id; s->c = kl::scoped_connection{h.c};
                if (s->id >= 0) slots[s->id].handles++;
                scons.push_back(std::move(s));
            }
            break;
        case 7: // destroy scoped -> disconnects
            if (!scons.empty()) {
                std::size_t i = r.below(scons.size()); int id = scons[i]->id; note("~scoped#" + std::to_string(id));
                auto h = std::move(scons[i]); scons.erase(scons.begin() + i);
                if (id >= 0) { slots[id].handles--; model_disconnect(id); }
                h.reset(); vf::count("op.scoped_destroy");
            }
            break;
        case 8: // release
            if (!scons.empty()) {
                std::size_t i = r.below(scons.size()); int id = scons[i]->id; note("rel#" + std::to_string(id));
                kl::connection c = scons[i]->c.release(); scons[i]->id = -1;
                if (id >= 0) slots[id].handles--;
                if (r.coin() && id >= 0) { auto h = std::move(scons[i]); scons.erase(scons.begin() + i); h.reset(); }
                add_conn(std::move(c), id); vf::count("op.scoped_release");
            }
            break;
        case 9: // replace a scoped connection: the old slot gets disconnected
            if (scons.size() > 1 && r.chance(1, 4)) {
                std::size_t i = r.below(scons.size()), j = r.below(scons.size()); note("swapscoped");
                std::swap(scons[i]->id, scons[j]->id); using std::swap; swap(scons[i]->c, scons[j]->c); vf::count("op.scoped_swap"); break;
            }
            if (!scons.empty() && r.chance(1, 4)) {
                std::size_t i = r.below(scons.size()); note("mvscoped");
                auto s = std::unique_ptr<scon_h>(new scon_h{kl::scoped_connection{std::move(scons[i]->c)}, scons[i]->id});
                scons[i]->id = -1; scons[i] = std::move(s); vf::count("op.scoped_move"); break;
            }
            if (!scons.empty() && !conns.empty()) {
                std::size_t i = r.below(scons.size()); auto& h = *r.pick(conns);
                int old = scons[i]->id, nw = h.id; note("rescoped#" + std::to_string(old) + "->" + std::to_string(nw));
                kl::scoped_connection tmp{h.c};
                if (nw >= 0) slots[nw].handles++;
                if (old >= 0) { slots[old].handles--; model_disconnect(old); }
                scons[i]->id = nw;
                auto& sc = scons[i]->c;
                sc = kl::scoped_connection{std::move(tmp)};
            }
            break;
        case 10: case 11: // blocker
            if (!conns.empty() && blks.size() < 8) {
                auto& h = *r.pick(conns); note("block#" + std::to_string(h.id));
                auto b = std::make_unique<blk_h>(); b->id = h.id;
                if (r.coin()) b->b = h.c.get_blocker(); else b->b = kl::connection::blocker{h.c};
                if (b->id >= 0) { slots[b->id].blocks++; slots[b->id].blockers++; }
                blks.push_back(std::move(b)); vf::count("op.block");
            }
            break;
        case 12: case 13: // drop a blocker
            if (!blks.empty()) {
                std::size_t i = r.below(blks.size()); int id = blks[i]->id; note("unblock#" + std::to_string(id));
                auto b = std::move(blks[i]); blks.erase(blks.begin() + i);
                if (id >= 0) { slots[id].blocks--; slots[id].blockers--; }
                b.reset(); vf::count("op.unblock");
            }
            break;
        case 14: // copy / copy-assign blocker
            if (!blks.empty()) {
                auto& b0 = *r.pick(blks);
                if (blks.size() < 8 && r.coin()) {
                    note("cpyblk#" + std::to_string(b0.id));
                    auto b = std::unique_ptr<blk_h>(new blk_h{kl::connection::blocker{b0.b}, b0.id});
                    if (b->id >= 0) { slots[b->id].blocks++; slots[b->id].blockers++; }
                    blks.push_back(std::move(b));
                } else {
                    auto& b1 = *r.pick(blks);
                    note("asgblk#" + std::to_string(b1.id) + "=" + std::to_string(b0.id));
                    if (b0.id >= 0) { slots[b0.id].blocks++; slots[b0.id].blockers++; }
                    if (b1.id >= 0) { slots[b1.id].blocks--; slots[b1.id].blockers--; }
                    b1.id = b0.id;
                    b1.b = b0.b;
                }
            }
            break;
        case 15: // move blocker / move connection
            if (blks.size() > 1 && r.coin()) {
                std::size_t i = r.below(blks.size()), j = (i + 1 + r.below(blks.size() - 1)) % blks.size();
                if (r.chance(1, 3)) {
                    note("swapblk#" + std::to_string(blks[i]->id) + "," + std::to_string(blks[j]->id));
                    std::swap(blks[i]->id, blks[j]->id);
                    using std::swap; swap(blks[i]->b, blks[j]->b);
                } else { // what the target held is let go of no later than when the source dies
                    note("mvasgblk#" + std::to_string(blks[i]->id) + "=" + std::to_string(blks[j]->id));
                    int old = blks[i]->id; auto src = std::move(blks[j]); auto& dst = *blks[i]; dst.id = src->id;
                    blks.erase(blks.begin() + (std::ptrdiff_t)j);
                    if (old >= 0) { slots[old].blocks--; slots[old].blockers--; }
                    dst.b = std::move(src->b); src.reset(); vf::count("op.blocker_move_assign");
                }
            } else if (conns.size() > 1 && r.chance(1, 4)) {
                std::size_t i = r.below(conns.size()), j = r.below(conns.size());
                if (conns[i]->busy || conns[j]->busy) break;
                note("swapconn"); std::swap(conns[i]->id, conns[j]->id); std::swap(conns[i]->emptied, conns[j]->emptied);
                using std::swap; swap(conns[i]->c, conns[j]->c);
            } else if (!blks.empty() && r.coin()) {
                std::size_t i = r.below(blks.size()); note("mvblk");
                auto b = std::unique_ptr<blk_h>(new blk_h{std::move(blks[i]->b), blks[i]->id});
                if (blks[i]->b.blocking()) bad_("blocker.moved-from", "moved-from blocker still blocks");
                blks[i] = std::move(b);
            } else if (!conns.empty()) {
                std::size_t i = r.below(conns.size()); note("mvconn");
                kl::connection c{std::move(conns[i]->c)};
                if (conns[i]->c.connected()) bad_("conn.moved-from", "moved-from connection connected");
                conns[i]->c = std::move(c);
            }
            break;
        }
    }
    void op_disconnect_all()
    {
        int sg = (int)r.below(sigs.size());
        note("discall@" + std::to_string(sg));
        for (int id : order[sg]) model_disconnect(id);
        sigs[sg]->disconnect_all_slots();
        vf::count("op.disconnect_all");
    }
    void op_weak_expire()
    {
        if (weak_owner.empty()) return;
        auto it = weak_owner.begin(); std::advance(it, r.below(weak_owner.size()));
        if (slots[it->first].running) return;
        note("expire#" + std::to_string(it->first));
        slots[it->first].weak_alive = false;
        weak_owner.erase(it);
        vf::count("op.expire");
    }
    // signal-level moves; only outside emissions and when no signal-to-signal slot refers to them
    void op_move()
    {
        if (depth || has_chain_targets || frames.size()) return;
        int a = (int)r.below(sigs.size()), b = (int)r.below(sigs.size());
        switch (r.below(4))
        {
        case 0: { // move-construct: handles follow, source is empty
            note("mvctor@" + std::to_string(a));
            auto n = std::make_unique<sig_t>(std::move(*sigs[a]));
            if (sigs[a]->num_slots() != 0) bad_("move.source", "moved-from signal not empty");
            if (r.coin()) { (*sigs[a])(1, "x"); } // no slot may run: on_call would object (no frame)
            auto old = std::move(sigs[a]);
            sigs[a] = std::move(n);
            old.reset();
            vf::count("op.move");
            break; }
        case 1: { // move-assign then drop the source: a's former slots are gone either way
            if (a == b) break;
            note("mvasg@" + std::to_string(a) + "=" + std::to_string(b));
            for (int id : order[a]) model_disconnect(id);
            *sigs[a] = std::move(*sigs[b]);
            auto old = std::move(sigs[b]);
            order[a] = std::move(order[b]); order[b].clear();
            sigs[b] = std::make_unique<sig_t>();
            for (int id : order[a]) slots[id].sig = a;
            old.reset();
            vf::count("op.move_assign");
            break; }
        case 2: {
            note("swap@" + std::to_string(a) + "," + std::to_string(b));
            swap(*sigs[a], *sigs[b]); std::swap(order[a], order[b]);
            for (int id : order[a]) slots[id].sig = a;
            for (int id : order[b]) slots[id].sig = b;
            vf::count("op.swap");
            break; }
        case 3: {
            note("destroy@" + std::to_string(a));
            for (int id : order[a]) model_disconnect(id);
            order[a].clear();
            auto old = std::move(sigs[a]);
            sigs[a] = std::make_unique<sig_t>();
            old.reset();
            vf::count("op.destroy_signal");
            break; }
        }
    }
    void op_emit(bool swallow)
    {
        if (depth >= 5) return;
        int sg = (int)r.below(sigs.size());
        note("emit@" + std::to_string(sg) + "(");
        frame f;
        f.sig = sg; f.snap = snapshot(sg); f.a = (int)r.below(1000000);
        f.s = "arg-" + std::to_string(r.below(1000000)) + std::string(r.below(2) * 24, 'z');
        std::size_t lvl = frames.size();
        int a = f.a; std::string s = f.s;
        std::vector<int> run_before;
        frames.push_back(std::move(f));
        ++depth;
        if ((unsigned)depth > maxdepth) maxdepth = depth;
        vf::count("op.emit");
        kl::connection cur = kl::this_signal::current_connection();
        std::size_t cur_hash = cur.hash();
        cur = {};
        bool threw = false;
        try
        {
            (*sigs[sg])(a, s);
        }
        catch (const boom&)
        {
            threw = true;
            note("!");
            vf::count("ev.exception");
            // everything above lvl was unwound
            for (std::size_t i = lvl; i < frames.size(); ++i) {}
            frames.resize(lvl + 1);
        }
        --depth;
        if (!threw && !bad)
        {
            int nx = advance();
            if (frames.size() != lvl + 1) bad_("model-frames", "frame mismatch");
            else if (nx >= 0) bad_("emission.missed", "emission returned without calling slot " + std::to_string(nx));
            vf::count("ev.emission_complete");
        }
        if (!bad) frames.resize(lvl);
        else if (frames.size() > lvl) frames.resize(lvl);
        if (kl::this_signal::current_connection().hash() != cur_hash) bad_("current.restore", "current connection not restored after nested emission");
        if (depth == 0)
            if (kl::this_signal::current_connection().connected() || !(kl::this_signal::current_connection() == kl::connection{})) bad_("current.outside", "current connection set outside emission");
        note(")");
        if (s.compare(0, 4, "arg-") != 0) bad_("args.caller", "caller's argument changed");
        if (threw && !swallow && depth > 0) throw boom{0};
    }

    void step(bool inside, int self)
    {
        if (bad || budget-- <= 0) return;
        unsigned w = (unsigned)r.below(100);
        if (w < 20) op_connect();
        else if (w < 52) op_handle();
        else if (w < 56) op_disconnect_all();
        else if (w < 58) op_connect_null();
        else if (w < 62) op_weak_expire();
        else if (w < 72) op_move();
        else if (w < 97) op_emit(r.coin());
        else { if (!inside) kl::this_signal::stop_emission(); }
        if (!bad) { check_handles(); check_lifetimes(); }
    }
};

void token_destroyed(int id)
{
    auto& s = W->slots[id];
    s.destroyed++;
    if (s.destroyed > 1) W->bad_("token.double", "callable destroyed twice: slot " + std::to_string(id));
    if (s.running > 0) W->bad_("token.running", "callable destroyed while running: slot " + std::to_string(id));
    if (s.connected) W->bad_("token.early", "callable destroyed while connected: slot " + std::to_string(id));
    vf::count("ev.token_destroyed");
    if (s.token_act && !W->bad)
    {
        // re-enter the library from the destructor
        W->note("dtor#" + std::to_string(id));
        vf::count("ev.dtor_reentry");
        for (auto& sg : W->sigs) if (sg) (void)sg->num_slots();
        if (W->r.coin())
            for (std::size_t i = 0; i < W->conns.size(); ++i)
                if (W->conns[i]->id >= 0 && !W->conns[i]->busy && W->r.chance(1, 3)) { W->disc_conn(i); break; }
    }
}

void on_call(int id, int a, std::string s)
{
    world& w = *W;
    w.note("call#" + std::to_string(id));
    vf::count("ev.call");
    if (w.bad) return;
    if (w.frames.empty()) return w.bad_("call.unexpected", "slot called outside any emission");
    int nx = w.advance();
    if (nx != id)
        return w.bad_("call.order", "slot " + std::to_string(id) + " called, expected " + std::to_string(nx));
    std::size_t lvl = w.frames.size();
    {
        frame& f = w.frames.back();
        ++f.cur;
        f.running_slot = id;
        if (a != f.a || s != f.s) return w.bad_("call.args", "slot " + std::to_string(id) + " got wrong arguments '" + s + "' expected '" + f.s + "'");
    }
    s.assign("mutated by callee"); // its own copy
    w.slots[id].running++;
    struct undo { int id; ~undo() { W->slots[id].running--; } } u{id};
    auto check_current = [&] {
        kl::connection c = kl::this_signal::current_connection();
        if (c.hash() != w.slots[id].hash) w.bad_("current.slot", "current connection is not the running slot " + std::to_string(id));
        if (c.connected() != w.slots[id].connected) w.bad_("current.connected", "current connection state wrong");
    };
    check_current();
    // actions
    unsigned n = (unsigned)w.r.below(4);
    if (w.r.chance(1, 3)) n = 0;
    for (unsigned i = 0; i < n && !w.bad; ++i)
    {
        if (w.r.chance(1, 6))
        {
            // self-disconnect through the current connection
            w.note("self-disc#" + std::to_string(id));
            vf::count("ev.self_disconnect");
            kl::connection c = kl::this_signal::current_connection();
            w.model_disconnect(id);
            c.disconnect();
            if (c.connected()) w.bad_("disconnect.still-connected", "self disconnect");
        }
        else if (w.r.chance(1, 8))
        {
            w.note("stop");
            vf::count("ev.stop");
            w.frames[lvl - 1].stopped = true;
            kl::this_signal::stop_emission();
        }
        else
            w.step(true, id);
        if (!w.bad) { if (w.frames.size() != lvl) w.bad_("model-frames", "frames after step"); else check_current(); }
    }
    if (!w.bad && w.r.chance(1, 12)) { w.note("throw#" + std::to_string(id)); throw boom{id}; }
}

// moving or swapping a signal during its emission must terminate
void death_case(vf::rng& r)
{
    int mode = (int)r.below(4);
    std::fflush(stdout); std::fflush(stderr);
    pid_t p = fork();
    if (p == 0)
    {
        int fd = ::open("/dev/null", O_WRONLY); if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); }
        std::set_terminate([] { _exit(42); });
        std::signal(SIGABRT, [](int) { _exit(42); });
        kl::signal<void()> a, b;
        bool nested = r.coin();
        auto act = [&] {
            switch (mode)
            {
            case 0: { kl::signal<void()> c{std::move(a)}; break; }
            case 1: b = std::move(a); break;
            case 2: a = std::move(b); break;
            case 3: { if (r.coin()) swap(a, b); else swap(b, a); break; }
            }
            _exit(1);
        };
        kl::signal<void()> other;
        other.connect(act);
        if (nested) a.connect([&] { other(); }); else a.connect(act);
        a.connect([] {});
        a();
        _exit(2);
    }
    int stt = 0;
    waitpid(p, &stt, 0);
    if (!WIFEXITED(stt) || WEXITSTATUS(stt) != 42)
        vf::fail("move-during-emission", "moving/swapping an emitting signal did not terminate (mode " + std::to_string(mode) + ", status " + std::to_string(stt) + ")");
    vf::count("ev.death_test");
    vf::seen("death" + std::to_string(mode));
}

// other signatures: references, no arguments, move-only references
void signature_case(vf::rng& r)
{
    kl::signal<void(int&, std::vector<int>&)> sref;
    std::vector<int> log, want;
    int n = (int)r.below(6);
    for (int i = 0; i < n; ++i)
    {
        bool fr = r.coin();
        sref.connect([i](int& x, std::vector<int>& l) { x = x * 3 + i; l.push_back(i); }, fr ? kl::at_front : kl::at_back);
        if (fr) want.insert(want.begin(), i); else want.push_back(i);
    }
    int x = 1, y = 1;
    for (int i : want) y = y * 3 + i;
    sref(x, log);
    VF_CHECK(x == y && log == want, "args.reference", "reference arguments must reach the caller's object in order");
    kl::signal<void(std::unique_ptr<int>&)> su;
    int hits = 0;
    su.connect([&](std::unique_ptr<int>& p) { if (p && *p == 7) ++hits; });
    su.connect([&](std::unique_ptr<int>& p) { if (p && *p == 7) ++hits; });
    auto up = std::make_unique<int>(7);
    su(up);
    VF_CHECK(hits == 2, "args.unique", "by-reference unique_ptr");
    kl::signal<void(std::shared_ptr<int>, const std::string&, std::vector<std::string>)> sv;
    int ok = 0;
    auto sp = std::make_shared<int>(5);
    for (int i = 0; i < 3; ++i)
        sv.connect([&](std::shared_ptr<int> p, const std::string& s, std::vector<std::string> v) {
            if (p && *p == 5 && s == "long enough string to be on the heap" && v.size() == 2 && v[1] == "second element, also long enough") ++ok;
            p.reset(); v.clear();
        });
    sv(sp, "long enough string to be on the heap", {"a", "second element, also long enough"});
    VF_CHECK(ok == 3, "args.by-value", "each slot must get the emission's arguments, got " << ok << " of 3");
    VF_CHECK(sp.use_count() == 1, "args.retained", "emission retains its arguments");
    vf::seen("signature" + std::to_string(n));
}

// Counters inside a signal must not wrap: very deep recursion, very many blockers, slots and handles.
void on_big_stack(const std::function<void()>& f)
{
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, std::size_t(1) << 30);
    pthread_t t;
    auto* fp = &f;
    if (pthread_create(&t, &at, [](void* p) -> void* { (**static_cast<const std::function<void()>**>(p))(); return nullptr; }, &fp) == 0) pthread_join(t, nullptr);
    else f();
    pthread_attr_destroy(&at);
}
void scale_case(vf::rng& r, bool huge)
{
    const int kind = (int)r.below(3);
    const int n = huge ? 65600 + (int)r.below(40) : 250 + (int)r.below(40);
    vf::count(huge ? "ev.scale_huge" : "ev.scale"); vf::seen("scale" + std::to_string(kind) + (huge ? "h" : "") + std::to_string(n & 63));
    if (kind == 0)
    {
        // n emissions of the same signal in flight; slots disconnect and connect in the middle of them
        const int at = r.coin() ? n : (int)r.range(1, n);
        auto body = [&] {
            kl::signal<void(int)> s;
            struct cnt { int* d; int v = 77; ~cnt() { v = 0; ++*d; } };
            int destroyed = 0, later = 0, late = 0; bool early = false;
            auto held = std::make_shared<cnt>(cnt{&destroyed}); destroyed = 0;
            kl::connection self = s.connect([&s, &self, &early, &destroyed, &late, at, n, held](int d) {
                if (d < n) s(d + 1);
                if (d == at) { self.disconnect(); s.connect([&late](int) { ++late; }); }
                if (destroyed || held->v != 77) early = true;
            });
            s.connect([&](int) { ++later; });
            held.reset();
            s(1);
            VF_CHECK(!early, "scale.early-destroy", "callable destroyed while " << n << " emissions ran, disconnected at depth " << at);
            VF_CHECK(destroyed == 1, "scale.leak", "callable destroyed " << destroyed << " times");
            VF_CHECK(later == n, "scale.missed", "second slot called " << later << " times in " << n << " emissions");
            VF_CHECK(late == 0 && s.num_slots() == 2, "scale.late", "slot connected inside called " << late << " times; slots " << s.num_slots());
            s(n + 1);
            VF_CHECK(late == 1 && later == n + 1, "scale.next", "next emission");
        };
        if (huge) on_big_stack(body); else body();
    }
    else if (kind == 1)
    {
        kl::signal<void()> s; int a = 0, b = 0;
        auto c = s.connect([&] { ++a; }); s.connect([&] { ++b; });
        std::vector<kl::connection::blocker> bl; bl.reserve(n);
        for (int i = 0; i < n; ++i)
        {
            if (i & 1) bl.push_back(bl.back()); else bl.push_back(c.get_blocker());
            if (!huge || (i & 255) >= 254 || (i & 0xffff) < 3) s();
        }
        s();
        VF_CHECK(a == 0 && b > 0, "scale.blocked", "blocked slot called " << a << " times with up to " << n << " blockers");
        while (bl.size() > 1) { bl.pop_back(); if (!huge || bl.size() < 3 || (bl.size() & 255) < 2) s(); }
        VF_CHECK(a == 0, "scale.blocked", "blocked slot called while blockers are left");
        bl.clear(); s();
        VF_CHECK(a == 1, "scale.unblocked", "slot called " << a << " times after the last blocker has gone");
        // many handles: the callable lives exactly until the last of them and the signal are gone
        struct cnt { int* d; ~cnt() { ++*d; } };
        int destroyed = 0; auto held = std::make_shared<cnt>(cnt{&destroyed}); destroyed = 0;
        auto k = s.connect([held] {}); held.reset();
        std::vector<kl::connection> hs((std::size_t)n, k);
        s.disconnect_all_slots(); k = {};
        VF_CHECK(!hs.front().connected() && !hs.back().connected(), "scale.handles", "still connected");
        hs.clear();
        VF_CHECK(destroyed == 1, "scale.handles", "callable destroyed " << destroyed << " times with " << n << " handles");
    }
    else
    {
        kl::signal<void(std::vector<int>&)> s; std::vector<kl::connection> cs; std::vector<int> want, got;
        for (int i = 0; i < n; ++i) cs.push_back(s.connect([i](std::vector<int>& v) { v.push_back(i); }));
        auto expect = [&](const char* when) { got.clear(); s(got); VF_CHECK(got == want && s.num_slots() == want.size(), "scale.many", when << ": " << got.size() << " calls, " << s.num_slots() << " slots, expected " << want.size()); };
        for (int i = 0; i < n; ++i) want.push_back(i);
        expect("all");
        const int cut = n - (int)r.below(300) % n;
        for (int i = 0; i < cut; ++i) cs[i].disconnect();   // from the front, so each is found at once
        want.erase(want.begin(), want.begin() + cut); expect("after disconnecting");
        s.connect([](std::vector<int>& v) { v.push_back(-1); }, kl::at_front); want.insert(want.begin(), -1);
        s.connect([](std::vector<int>& v) { v.push_back(-2); }); want.push_back(-2); expect("after connecting again");
        kl::signal<void(std::vector<int>&)> t{std::move(s)}; got.clear(); t(got);
        VF_CHECK(got == want && s.empty(), "scale.moved", "moved signal");
    }
}

// Handles owned by what they (or the handle assigned to) refer to, and handles reused by the
// destructor of the callable they let go of.
void alias_case(vf::rng& r)
{
    using sig0 = kl::signal<void()>;
    struct probe { int& n; explicit probe(int& c) : n{c} { ++n; } probe(const probe&) = delete; ~probe() { --n; } };
    struct holder { kl::connection c; kl::connection::blocker b; std::unique_ptr<probe> p; };
    int live = 0, called = 0, other_called = 0;
    {
        auto sg = std::make_unique<sig0>();
        sig0 os;
        kl::connection other = (r.coin() ? *sg : os).connect([&] { ++other_called; });
        auto h = std::make_shared<holder>();
        h->p = std::make_unique<probe>(live);
        h->c = other;
        h->b = other.get_blocker();
        const int how = (int)r.below(3), by = (int)r.below(4);
        kl::connection c = sg->connect([h, &called] { ++called; });
        kl::connection::blocker b = c.get_blocker();
        holder* raw = h.get();
        h.reset();
        const bool in_os = r.coin();
        (void)in_os;
        switch (by)
        {
        case 0: sg->disconnect_all_slots(); break;
        case 1: { kl::connection k{c}; k.disconnect(); break; }
        case 2: sg.reset(); break;
        case 3: { kl::scoped_connection k{c}; break; }
        }
        const bool up = other.connected();
        VF_CHECK(live == 1 && !c.connected(), "alias.kept", "live " << live);
        if (how == 0) // the blocker is the last to go
        {
            c = raw->c;
            VF_CHECK(c == other && c.connected() == up && live == 1, "alias.copy-assign", "connection");
            b = raw->b; // destroys *raw
            VF_CHECK(live == 0 && b.blocking(), "alias.blocker-assign", "live " << live);
            os(); if (sg) (*sg)();
            VF_CHECK(other_called == 0, "alias.blocked", "called although blocked");
            b = kl::connection::blocker{};
        }
        else if (how == 1)
        {
            b = kl::connection::blocker{};
            c = raw->c; // destroys *raw
            VF_CHECK(live == 0 && c == other && c.connected() == up, "alias.copy-assign", "live " << live);
        }
        else
        {
            b = raw->b;
            VF_CHECK(live == 1 && b.blocking(), "alias.blocker-assign", "live " << live);
            c = raw->c;
            VF_CHECK(live == 0 && c == other, "alias.copy-assign", "live " << live);
            os(); if (sg) (*sg)();
            VF_CHECK(other_called == 0, "alias.blocked", "called although blocked");
            b = kl::connection::blocker{};
        }
        os(); if (sg) (*sg)();
        VF_CHECK(other_called == (up ? 1 : 0) && called == 0, "alias.calls", "other called " << other_called);
        vf::count("op.alias_assign");
    }
    VF_CHECK(live == 0, "alias.leak", "live " << live);
    // a captured object's destructor puts a new connection into the handle that is letting go
    {
        int live2 = 0, n = 0;
        {
            sig0 s;
            kl::connection c;
            kl::scoped_connection sc;
            bool armed = true;
            struct actor
            {
                std::function<void()> f;
                explicit actor(std::function<void()> g) : f{std::move(g)} {}
                ~actor() { f(); }
            };
            const int how = (int)r.below(3);
            auto act = std::make_shared<actor>([&] {
                if (!armed) return;
                armed = false;
                auto pr = std::make_shared<probe>(live2);
                auto k = s.connect([pr, &n] { ++n; });
                if (how == 2) sc = kl::scoped_connection{k}; else c = k;
            });
            kl::connection k = s.connect([act] {});
            act.reset();
            if (how == 2) { sc = kl::scoped_connection{k}; k = kl::connection{}; sc.release().disconnect(); }
            else { c = k; k = kl::connection{}; if (how == 0) c.disconnect(); else { s.disconnect_all_slots(); c = kl::connection{}; } }
            VF_CHECK(!armed && s.num_slots() == 1 && live2 == 1, "alias.reuse", "how " << how << " slots " << s.num_slots());
            s();
            VF_CHECK(n == 1, "alias.reuse-call", "calls " << n);
            if (how == 0) VF_CHECK(c.connected(), "alias.reuse-connected", "handle lost the connection put into it");
            if (how == 2) VF_CHECK(sc.get().connected(), "alias.reuse-connected", "scoped handle lost the connection put into it");
            armed = false;
            if (r.coin()) { s.disconnect_all_slots(); }
        }
        VF_CHECK(live2 == 0, "alias.reuse-leak", "callable not destroyed, live " << live2);
        vf::count("op.alias_reuse");
    }
}

void one(vf::rng& r, std::uint64_t idx)
{
    if (idx % 101 == 11) return alias_case(r);
    if (idx % 997 == 31) return scale_case(r, true);
    if (idx % 211 == 5) return scale_case(r, false);
    if (idx % 53 == 7) return death_case(r);
    if (idx % 17 == 3) return signature_case(r);
    {
        world w{r};
        W = &w;
        w.slots.reserve(4000);
        int ns = 1 + (int)r.below(3);
        for (int i = 0; i < ns; ++i) { w.sigs.push_back(std::make_unique<sig_t>()); w.order.emplace_back(); }
        w.dtor_acts = r.chance(1, 3);
        w.no_chain = w.dtor_acts || r.coin();
        w.budget = 20 + (int)r.below(vf::st().thorough ? 400 : 160);
        unsigned pre = (unsigned)r.below(6);
        for (unsigned i = 0; i < pre; ++i) w.op_connect();
        while (w.budget > 0 && !w.bad)
        {
            try { w.step(false, -1); } catch (const boom&) { w.bad_("exception.depth", "exception escaped to depth 0 unexpectedly"); }
        }
        vf::count("max_nesting." + std::to_string(w.maxdepth));
        vf::seen(w.shape);
        if (idx < 2 || (idx % 1000 == 20)) vf::sample(w.trace, 2);
        // tear down in random order; everything must be destroyed exactly once
        if (!w.bad)
        {
            int phases[4] = {0, 1, 2, 3};
            for (int i = 3; i > 0; --i) std::swap(phases[i], phases[r.below(i + 1)]);
            for (int p : phases)
            {
                if (p == 0) { for (auto& s : w.slots) { s.connected = false; } auto sg = std::move(w.sigs); w.sigs.clear(); for (auto& o : w.order) o.clear(); sg.clear(); }
                if (p == 1) while (!w.conns.empty()) { w.drop_conn(w.conns.size() - 1); }
                if (p == 2) while (!w.scons.empty()) { auto h = std::move(w.scons.back()); w.scons.pop_back(); if (h->id >= 0) { w.slots[h->id].handles--; w.model_disconnect(h->id); } h.reset(); }
                if (p == 3) while (!w.blks.empty()) { auto h = std::move(w.blks.back()); w.blks.pop_back(); if (h->id >= 0) { w.slots[h->id].blocks--; w.slots[h->id].blockers--; } h.reset(); }
                if (!w.sigs.empty() || p == 0) { }
                for (auto& h : w.conns) if (h->c.connected() != (h->id >= 0 && w.slots[h->id].connected)) w.bad_("teardown.connected", "handle state after signal destruction");
            }
            for (auto& s : w.slots)
                if (s.has_token && s.destroyed != 1)
                    w.bad_(s.destroyed ? "token.double" : "token.leak", "slot " + std::to_string(s.id) + " destroyed " + std::to_string(s.destroyed) + " times by the end");
        }
    }
    W = nullptr;
}
} // namespace

int main(int argc, char** argv) { return vf::run(argc, argv, one); }

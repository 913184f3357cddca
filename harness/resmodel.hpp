// Reference model of resources: a type-erased tree built from the hand-written field tables, on which every
// operation is decided independently of kl's own traversal.
#pragma once
#include "json_types.hpp"
#include "kl/path.hpp"
#include "kl/resource.hpp"
#include "kl/resource_attributes.hpp"
#include "kl/resource_op.hpp"

namespace rm {
using namespace jm;
using segs = std::vector<std::string>;

// ---- faults thrown out of user code (validators, copies, moves, deserializers) at the k-th call
struct user_fault : std::runtime_error { user_fault() : std::runtime_error("user fault") {} };
struct faults { int at = -1, calls = 0, kind = 0; bool fired = false; }; // kind 0: validation_error, 1: user_fault, 2: std::out_of_range
inline faults& vfault() { static faults f; return f; }
inline faults& cfault() { static faults f; return f; }
inline faults& dfault() { static faults f; return f; }
inline faults& mfault() { static faults f; return f; }
inline bool hit(faults& f) { if (f.at < 0) return false; if (f.calls++ != f.at) return false; f.fired = true; return true; }
inline void disarm() { vfault() = cfault() = dfault() = mfault() = faults{}; }
inline std::vector<std::string>*& root_log() { static std::vector<std::string>* p = nullptr; return p; } // what the root validator was shown
inline void user_validate(const std::string& problem)
{
    auto& f = vfault();
    if (hit(f)) { if (f.kind == 1) throw user_fault{}; if (f.kind == 2) throw std::out_of_range{"user range"}; throw kl::resources::validation_error{"armed"}; }
    if (!problem.empty()) throw kl::resources::validation_error{problem};
}
template <class T> struct RV { static std::string check(const T&) { return {}; } }; // validators as the types declare them

template <class T, class = void> struct seq_traits { static constexpr bool is = false; };
template <class T> struct seq_traits<T, std::void_t<typename T::value_type, decltype(std::declval<T&>().begin())>> { static constexpr bool is = !std::is_same_v<T, std::string> && !is_map<T>::value && !is_eset<T>::value; };
template <class T, class = void> struct has_at : std::false_type {};
template <class T> struct has_at<T, std::void_t<decltype(std::declval<T&>().at(0))>> : std::true_type {};

struct N
{
    enum kind { Leaf, Struct, Opt, Map, Keyed, Index, Bag } k = Leaf; // Bag: a sequence that cannot be addressed into
    bool ro = false, sub = false, is_key = false, postable = false, erasable = false;
    bool set = false;                                 // Opt
    std::string decl;                                 // declared name (fields)
    std::function<J(bool)> enc; std::function<void(const J&)> dec, patch, append; std::function<void(std::size_t)> erase; std::function<void()> reset;
    std::function<J(rng&)> gen_body, gen_elem; const std::vector<std::string>* words = nullptr;
    std::vector<std::pair<std::string, N>> kids;      // Opt: one, the value
    bool structured() const { return k != Leaf; }
};
inline std::string key_text(const J& j) { if (j.k == J::Obj) { std::string o; for (auto& m : j.o) o += (&m == &j.o[0] ? "" : "-") + key_text(m.second); return o; } return j.k == J::Str ? j.s : i2s(j.i); } // composite keys: the members joined by '-' 
template <class T> N build(T& v)
{
    N n; T* p = &v;
    n.enc = [p](bool s) { return jm::enc(*p, s); };
    n.dec = [p](const J& j) { jm::dec(*p, j); };
    n.patch = [p](const J& j) { jm::patch(*p, j); };
    n.gen_body = [](rng& r) { bool s = r.coin(); return jm::enc(jm::gen<T>(r, 2), s); };
    n.words = &jm::words<T>();
    if constexpr (is_opt<T>::value)
    {
        n.k = N::Opt; n.set = v.has_value(); n.reset = [p] { p->reset(); };
        if (v) n.kids.emplace_back("", build(*v));
    }
    else if constexpr (has_D<T>::value)
    {
        n.k = N::Struct;
        each_field<T>([&](auto& f) {
            N c = build(v.*f.ptr); c.ro = f.ro; c.sub = f.sub_ro; c.decl = f.decl;
            if (!f.ckey.empty())
            {
                c.k = N::Keyed;
                for (auto& [label, e] : c.kids) for (auto& [name, m] : e.kids) if (m.decl == f.ckey) { m.is_key = true; label = key_text(m.enc(false)); }
            }
            n.kids.emplace_back(f.key, std::move(c));
        });
    }
    else if constexpr (is_map<T>::value)
    {
        n.k = N::Map; n.erasable = true; n.erase = [p](std::size_t i) { p->erase(std::next(p->begin(), (std::ptrdiff_t)i)); };
        for (auto& [key, x] : v) n.kids.emplace_back(key, build(x));
    }
    else if constexpr (seq_traits<T>::is)
    {
        using E = typename T::value_type;
        n.k = has_at<T>::value ? N::Index : N::Bag;
        n.gen_elem = [](rng& r) { bool s = r.coin(); return jm::enc(jm::gen<E>(r, 3), s); };
        if constexpr (!is_arr<T>::value)
        {
            n.postable = n.erasable = true;
            n.append = [p](const J& j) { E e{}; jm::dec(e, j); p->push_back(std::move(e)); };
            n.erase = [p](std::size_t i) { p->erase(std::next(p->begin(), (std::ptrdiff_t)i)); };
        }
        std::size_t i = 0; for (auto& x : v) n.kids.emplace_back(std::to_string(i++), build(x));
    }
    return n;
}
// ---- validators and key uniqueness over the whole tree
template <class T> std::string problem(const T& v)
{
    if (auto s = RV<T>::check(v); !s.empty()) return s;
    if constexpr (is_opt<T>::value) { if (v) return problem(*v); }
    else if constexpr (has_D<T>::value)
    {
        std::string out;
        each_field<T>([&](auto& f) {
            if (!out.empty()) return;
            using V = fv<decltype(f)>;
            if (!f.ckey.empty()) { if constexpr (seq_traits<V>::is) { if constexpr (has_D<typename V::value_type>::value) { std::set<std::string> s; for (auto& e : v.*f.ptr) each_field<typename V::value_type>([&](auto& g) { if (g.decl == f.ckey && !s.insert(show(jm::enc(e.*g.ptr, false))).second) out = "duplicate key"; }); } } }
            if (out.empty()) out = problem<V>(v.*f.ptr);
        });
        return out;
    }
    else if constexpr (is_map<T>::value) { for (auto& [k, x] : v) if (auto s = problem(x); !s.empty()) return s; }
    else if constexpr (seq_traits<T>::is) { for (auto& x : v) if (auto s = problem<typename T::value_type>(x); !s.empty()) return s; }
    return {};
}
// ---- resolution
struct found { N* n = nullptr; N* parent = nullptr; std::size_t index = 0; bool inherited = false; };
inline found resolve(N& root, const segs& path, std::size_t count)
{
    found f{&root};
    for (std::size_t i = 0; i < count; ++i)
    {
        while (f.n->k == N::Opt) { if (f.n->kids.empty()) return {}; f.inherited |= f.n->sub; f.n = &f.n->kids[0].second; }
        if (f.n->k == N::Leaf || f.n->k == N::Bag) return {};
        N* next = nullptr; std::size_t idx = 0;
        for (auto& [label, c] : f.n->kids) { if (label == path[i]) { next = &c; break; } ++idx; }
        if (!next) return {};
        f.inherited |= f.n->sub || next->is_key; f.parent = f.n; f.index = idx; f.n = next;
    }
    return f;
}
enum op_t { GET, PUT, PATCH, POST, DEL };
struct outcome { std::set<int> status; bool ok = false, ro = false; segs at; bool below = false; };
// Applies the operation to the tree (of a scratch copy); `bad` tells what is wrong with the resulting whole.
inline outcome decide(N& root, op_t op, const segs& path, const J& body, const std::function<std::string()>& bad)
{
    outcome o; o.at = path;
    if (op == DEL && !path.empty())
    {
        auto pf = resolve(root, path, path.size() - 1);
        if (!pf.n) { o.status = {404}; return o; }
        N& c = *pf.n;
        if (c.k == N::Map || c.k == N::Keyed || c.k == N::Index)
        {
            std::size_t i = 0; for (; i < c.kids.size() && c.kids[i].first != path.back(); ++i) {}
            bool locked = c.ro || c.sub || pf.inherited;
            if (i == c.kids.size()) { o.status = {404}; if (c.k == N::Index && (locked || !c.erasable)) o.status.insert(405); return o; }
            if (locked) { o.status = {405}; o.ro = true; return o; }
            if (!c.erasable) { o.status = {405}; return o; }
            c.erase(i); if (!bad().empty()) { o.status = {409}; return o; }
            o.status = {204}; o.ok = true; o.at.pop_back(); o.below = true; return o;
        }
    }
    auto f = resolve(root, path, path.size());
    if (!f.n) { o.status = {404}; return o; }
    N& n = *f.n; bool locked = n.ro || f.inherited;
    if (op == GET) { o.status = {200}; o.ok = true; return o; }
    if (locked || (op == POST && n.sub)) { o.status = {405}; o.ro = true; return o; }
    std::string key; bool keyed = f.parent && f.parent->k == N::Keyed;
    auto key_now = [&] { for (auto& [l, m] : n.kids) if (m.is_key) return key_text(m.enc(false)); return std::string(); };
    if (keyed) key = key_now();
    switch (op)
    {
    case PUT: case PATCH:
        try { if (op == PUT) n.dec(body); else n.patch(body); } catch (rej&) { o.status = {400}; return o; }
        if (keyed && key_now() != key) { o.status = {405}; o.ro = true; if (!bad().empty()) o.status.insert(409); return o; }
        if (!bad().empty()) { o.status = {409}; return o; }
        o.status = {200}; o.ok = true; o.below = n.structured(); return o;
    case POST:
        if (!n.postable) { o.status = {405}; return o; }
        try { n.append(body); } catch (rej&) { o.status = {400}; return o; }
        if (!bad().empty()) { o.status = {409}; return o; }
        o.status = {201}; o.ok = true; o.below = true; return o;
    default:
        if (n.k != N::Opt) { o.status = {405}; return o; }
        n.reset(); if (!bad().empty()) { o.status = {409}; return o; }
        o.status = {204}; o.ok = true; o.below = true; return o;
    }
}
// ---- all addressable nodes
inline bool addressable(const std::string& s) { return !s.empty() && s.find('/') == std::string::npos; }
inline std::string join(const segs& s) { std::string o; for (auto& x : s) { if (!o.empty()) o += '/'; o += x; } return o; }
template <class Fn> void walk(N& n, segs& at, Fn fn) // visits (path, node); an optional's value shares its path
{
    fn(at, n);
    N* c = &n; while (c->k == N::Opt && !c->kids.empty()) c = &c->kids[0].second;
    if (c->k == N::Leaf || c->k == N::Bag || c->k == N::Opt) return;
    for (auto& [l, k] : c->kids) { if (!addressable(l)) continue; at.push_back(l); walk(k, at, fn); at.pop_back(); }
}
inline std::string encode(const segs& s, rng& r)
{
    std::string o; auto noise = [&] { while (r.chance(1, 12)) { static const char* n[] = {"./", "/", "x/../", "q%20/../"}; o += r.pick(n); } };
    if (s.empty()) { static const char* e[] = {"", "/", "//", ".", "/a/..", "/.."}; return r.chance(2, 3) ? "/" : r.pick(e); }
    if (r.chance(7, 8)) o = "/";
    for (std::size_t i = 0; i < s.size(); ++i)
    {
        if (i) { o += '/'; } noise();
        bool dots = s[i] == "." || s[i] == "..";
        for (unsigned char c : s[i]) { char b[8]; if (c == '%' || c == '/' || c == 0 || dots || r.chance(1, 25)) { std::snprintf(b, sizeof b, r.coin() ? "%%%02X" : "%%%02x", c); o += b; } else o += (char)c; }
    }
    if (r.chance(1, 10)) o += '/';
    return o;
}
inline kl::path to_path(const segs& s) { std::string o; for (auto& x : s) { o += '/'; for (unsigned char c : x) { char b[8]; std::snprintf(b, sizeof b, "%%%02x", c); o += b; } } return kl::path{o}; }

inline bool is_prop(const char* p) { return vf::st().prop == p; }
struct give_up {};
#define RV_CHECK(P, cond, key, ...) do { if (!(cond)) { if (is_prop(P)) { VF_CHECK(cond, key, __VA_ARGS__); } else if (!std::strcmp(P, "C11")) { desync = true; } } } while (0)

struct root_entry { const char* name; void (*go)(rng&); };
inline std::vector<root_entry>& roots() { static auto* v = new std::vector<root_entry>; return *v; }
template <class T> struct hooks { static constexpr bool root_logged = false; };

inline segs twist(rng& r, segs s, N& root, const std::vector<segs>& all)
{
    static const char* junk[] = {"0", "00", "01", "+1", "-1", " 1", "1 ", "0x1", "1e0", "18446744073709551615", "18446744073709551616", "18446744073709551617", "4294967296", "nope", "a", "id", "i", "..", ".", "-0", "007"};
    switch (r.below(8))
    {
    case 0: s.push_back(r.pick(junk)); break;
    case 1: if (!s.empty()) s.back() = r.pick(junk); break;
    case 2: if (!s.empty()) { auto& x = s[r.below(s.size())]; if (!x.empty() && x.find_first_not_of("0123456789") == std::string::npos) x = r.coin() ? "0" + x : std::to_string(r.below(8)); else x = near_miss(r, x); } break;
    case 3: if (!s.empty()) s.erase(s.begin() + (std::ptrdiff_t)r.below(s.size())); break;
    case 4: { auto& o = all[r.below(all.size())]; if (!o.empty()) s.push_back(o.back()); break; }
    case 5: { auto f = resolve(root, s, s.size()); if (f.n) { N* c = f.n; while (c->k == N::Opt && !c->kids.empty()) c = &c->kids[0].second; s.push_back(c->k == N::Keyed ? std::to_string(r.below(3)) : c->k == N::Index ? std::to_string(c->kids.size()) : r.pick(junk)); } break; }
    case 6: { auto f = resolve(root, s, s.size()); if (f.n && !f.n->decl.empty()) s.back() = f.n->decl; break; }
    default: if (!s.empty()) { auto& x = s.back(); if (!x.empty()) x[0] ^= 0x20; } break;
    }
    for (auto& x : s) if (!addressable(x)) x = "zz";
    return s;
}
inline void shrink_to_patch(rng& r, J& j) { if (j.k != J::Obj) return; for (std::size_t i = 0; i < j.o.size();) { if (r.chance(1, 2)) j.o.erase(j.o.begin() + (std::ptrdiff_t)i); else { shrink_to_patch(r, j.o[i].second); ++i; } } }
inline void spice(rng& r, J& j, const std::vector<std::string>& keys) // values validators object to, and keys already in use
{
    J& n = *pick_node(r, j);
    if (n.k == J::Int) n = J::integer(13); else if (n.k == J::Str) n = J::str(r.coin() || keys.empty() ? "bad" : r.pick(keys));
    else if (n.k == J::Obj && !keys.empty()) { for (auto& m : n.o) if (m.second.k == J::Str && (m.first == "id" || m.first == "name")) m.second = J::str(r.pick(keys)); }
    else if (n.k == J::Arr && !n.a.empty()) for (int i = 0; i < 4 && n.a.size() < 9; ++i) n.a.push_back(n.a[0]);
}
template <class T> void session(rng& r)
{
    using namespace kl::resources;
    disarm();
    T start = jm::gen<T>(r, 0);
    if (!problem(start).empty()) { vf::count("ev.invalid_start"); return; }
    auto res = make_resource(start);
    using tracker = modification_tracker; using gen_t = tracker::generation;
    std::string log; bool desync = false; std::vector<gen_t> history{res.state.modifications.current()};
    std::map<std::string, segs> known; // every path ever seen
    int ops = 3 + (int)r.below(8);
    for (int step = 0; step < ops && !desync && vf::st().nfails < 20; ++step)
    {
        const T before = res.value; const resource_state st0 = res.state;
        T want = before; N tree = build(want);
        std::vector<segs> all; std::vector<N*> nodes; std::map<std::string, std::string> val0; std::vector<std::string> keys;
        { segs at; walk(tree, at, [&](const segs& p, N& n) { all.push_back(p); nodes.push_back(&n); auto j = join(p); val0[j] = show(n.enc(false)); known.emplace(j, p); if (n.is_key) keys.push_back(key_text(n.enc(false))); }); }
        // choose an operation with a fair chance of making sense
        static const op_t opk[] = {GET, PUT, PUT, PUT, PATCH, PATCH, PATCH, POST, POST, DEL, DEL};
        op_t op = r.pick(opk); std::size_t pick = r.below(all.size());
        if ((op == POST || op == DEL) && r.chance(3, 4)) for (int tries = 0; tries < 60; ++tries) { std::size_t i = r.below(all.size()); N& n = *nodes[i]; if (op == POST ? n.postable : n.k == N::Opt || resolve(tree, all[i], all[i].size()).parent == nullptr || (resolve(tree, all[i], all[i].size()).parent->k != N::Struct)) { pick = i; break; } }
        segs path = all[pick]; if (r.chance(1, 5)) path = twist(r, path, tree, all);
        J body; { auto f = resolve(tree, path, path.size()); N& n = f.n ? *f.n : tree;
            if (op == POST) body = n.gen_elem ? n.gen_elem(r) : n.gen_body(r); else body = r.chance(1, 3) ? n.enc(r.coin()) : n.gen_body(r);
            if (f.parent && f.parent->k == N::Keyed && f.n && op != POST && r.chance(3, 4)) for (auto& [l, m] : n.kids) if (m.is_key) for (auto& mm : body.o) if (mm.first == l) mm.second = m.enc(false); // keep the key
            if (op == PATCH && r.chance(2, 3)) shrink_to_patch(r, body);
            if (r.chance(1, 4)) spice(r, body, keys);
            for (int m = r.chance(1, 4) ? 1 + (int)r.below(2) : 0; m; --m) mutate(r, body, *n.words); }
        std::string text = encode(path, r);
        outcome o = decide(tree, op, path, body, [&] { return problem(want); });
        static const char* names[] = {"GET", "PUT", "PATCH", "POST", "DELETE"};
        std::string what = std::string(names[op]) + " " + text + (op == PUT || op == PATCH || op == POST ? " " + cut(show(body)) : "");
        log += " | " + what; if (log.size() > 4000) log.erase(0, log.size() - 3000);
        // ---- the real thing
        kl::path p{text}; input in{r, body}; kl::json::deserialize_context ctx;
        bool faulty = op != GET && r.chance(1, 5); std::vector<std::string> shown;
        if (faulty) switch (r.below(4)) { case 0: vfault().at = (int)r.below(r.chance(1, 2) ? 3 : 40); vfault().kind = (int)r.below(3); break; case 1: cfault().at = (int)r.below(r.chance(1, 2) ? 6 : 60); break; case 2: mfault().at = (int)r.below(r.chance(1, 2) ? 4 : 30); break; default: dfault().at = (int)r.below(3); }
        operation_result got{}; std::string exc; bool user_exc = false;
        root_log() = &shown;
        try
        {
            switch (op)
            {
            case GET: got = get(res, p, [](const auto& v) { return kl::json::dump(v); }); break;
            case PUT: got = put(res, p, in.doc, ctx); break;
            case PATCH: got = patch(res, p, in.doc, ctx); break;
            case POST: got = post(res, p, in.doc, ctx); break;
            case DEL: got = del(res, p, ctx); break;
            }
        }
        catch (const user_fault& e) { exc = e.what(); user_exc = true; }
        catch (const std::out_of_range& e) { exc = e.what(); user_exc = exc == "user range"; }
        catch (const std::exception& e) { exc = e.what(); if (exc.empty()) exc = "?"; }
        root_log() = nullptr;
        bool fired = vfault().fired || cfault().fired || dfault().fired || mfault().fired; if (mfault().fired) vf::count("ev.move_fault"); bool vetoed = vfault().fired && vfault().kind == 0; disarm();
        int status = exc.empty() ? (int)got.status : 0; bool success = status >= 200 && status < 300;
        std::string ctxt = what + " -> " + (exc.empty() ? std::to_string(status) + " " + vf::jesc(cut(got.body)) : "exception " + exc) + (fired ? " (fault fired)" : "") + "; before " + cut(show(jm::enc(before, false))) + "; log" + log;
        vf::count(std::string("op.") + names[op]); vf::count("status." + std::to_string(status)); vf::seen(std::string(names[op]) + join(path) + show(body) + std::to_string(status) + val0[""]);
        bool same_as_before = eq(res.value, before, true);
        if (fired) vf::count("ev.fault_fired");
        // ---- C11
        if (!fired)
        {
            RV_CHECK("C11", exc.empty(), "exception", ctxt);
            RV_CHECK("C11", o.status.count(status), "status", "expected " << *o.status.begin() << ": " << ctxt);
            if (o.ok && success) RV_CHECK("C11", eq(res.value, op == GET ? before : want, true), "effect", "expected " << cut(show(jm::enc(want, false))) << " got " << cut(show(jm::enc(res.value, false))) << ": " << ctxt);
            if (!o.ok) RV_CHECK("C11", same_as_before, "effect-of-refused", ctxt);
            if (op == GET && success && o.ok) { parser q{got.body}; J g = q.document(); auto f = resolve(tree, path, path.size()); RV_CHECK("C11", q.ok && sameJ(g, f.n->enc(true), false), "get-body", "expected " << show(f.n->enc(true)) << ": " << ctxt); vf::count("ev.get_body"); }
        }
        // ---- C12
        if (!success)
        {
            RV_CHECK("C12", same_as_before, "changed-by-failure", "now " << cut(show(jm::enc(res.value, false))) << ": " << ctxt);
            RV_CHECK("C12", res.state.modifications.current() == st0.modifications.current(), "generation-by-failure", ctxt);
            for (auto& [j, s] : known) { auto kp = to_path(s); RV_CHECK("C12", res.state.modifications.changed_at(kp) == st0.modifications.changed_at(kp), "changed_at-by-failure", j << ": " << ctxt); }
            vf::count(fired ? user_exc ? "ev.user_exception" : "ev.armed_veto" : "ev.failed");
            if (fired && vetoed && exc.empty()) RV_CHECK("C12", status == 409 || o.status.count(status), "veto-status", ctxt);
            if (fired && !vetoed) RV_CHECK("C12", user_exc || (!o.ok && o.status.count(status)), "exception-lost", ctxt);
        }
        else
        {
            RV_CHECK("C12", !(fired && op != GET), "fault-swallowed", ctxt);
            if (op != GET)
            {
                auto bad = problem(res.value); RV_CHECK("C12", bad.empty(), "invalid-accepted", bad << ": " << ctxt); vf::count("ev.succeeded");
                if (hooks<T>::root_logged) { std::string fin = show(jm::enc(res.value, false)); bool saw = false; for (auto& s : shown) saw |= s == fin; RV_CHECK("C12", saw, "validator-view", "the root validator never saw the tree as it is after the change: " << ctxt); vf::count("ev.root_saw"); }
            }
        }
        // ---- C13
        {
            T now = res.value; N after = build(now); std::map<std::string, std::string> val1; segs at; walk(after, at, [&](const segs& q, N& n) { auto j = join(q); val1[j] = show(n.enc(false)); known.emplace(j, q); });
            auto& tr = res.state.modifications; auto g0 = st0.modifications.current(), g1 = tr.current();
            RV_CHECK("C13", g1 >= g0, "backwards", ctxt);
            if (op == GET || !success) RV_CHECK("C13", g1 == g0, "moved-without-change", ctxt);
            else RV_CHECK("C13", g1 > g0, "not-advanced", ctxt);
            auto is_prefix = [](const segs& a, const segs& b) { return a.size() <= b.size() && std::equal(a.begin(), a.end(), b.begin()); };
            bool trust = success && op != GET && o.ok && o.status.count(status);
            for (auto& [j, s] : known)
            {
                auto kp = to_path(s); auto c0 = st0.modifications.changed_at(kp), c1 = tr.changed_at(kp);
                auto i0 = val0.find(j), i1 = val1.find(j); bool differs = (i0 == val0.end()) != (i1 == val1.end()) || (i0 != val0.end() && i0->second != i1->second);
                RV_CHECK("C13", c1 >= c0 && c1 <= g1, "changed_at-range", j << ": " << ctxt);
                if (differs) { RV_CHECK("C13", c1 > g0, "missed-change", "the value at /" << j << " changed unnoticed: " << ctxt); vf::count("ev.changed_paths"); }
                if (op == GET || !success) RV_CHECK("C13", c1 == c0, "noise", j << ": " << ctxt);
                if (trust)
                {
                    bool above = is_prefix(s, o.at), under = is_prefix(o.at, s);
                    if (above) RV_CHECK("C13", c1 > g0, "ancestor", "/" << j << " not reported: " << ctxt);
                    else if (under && o.below && (i0 != val0.end() || i1 != val1.end())) RV_CHECK("C13", c1 > g0, "descendant", "/" << j << " not reported: " << ctxt);
                    else if (!under) { RV_CHECK("C13", c1 == c0, "unrelated", "/" << j << " reported as changed: " << ctxt); vf::count("ev.unrelated_paths"); }
                }
                if (c1 > g0 || c0 > g0) for (auto h : history) RV_CHECK("C13", tr.changed_since(kp, h) == (c1 > h), "changed_since", j << ": " << ctxt);
                RV_CHECK("C13", !tr.changed_since(kp, g1), "changed_since-now", j << ": " << ctxt);
            }
            if (g1 > history.back()) history.push_back(g1);
        }
        // ---- C14
        if (o.ro) { vf::count("ev.readonly"); if (!fired) { RV_CHECK("C14", o.status.count(status), "readonly-status", ctxt); RV_CHECK("C14", exc.empty(), "readonly-exception", ctxt); } RV_CHECK("C14", !success, "readonly-accepted", ctxt); RV_CHECK("C14", same_as_before, "readonly-changed", "now " << cut(show(jm::enc(res.value, false))) << ": " << ctxt); }
        if (!same_as_before) { auto bad = problem(res.value); RV_CHECK("C14", bad != "duplicate key", "duplicate-key", ctxt);
            // elements on the way to the addressed node keep their key
            T now = res.value, old = before; N a = build(old), b = build(now); for (std::size_t i = 1; i <= path.size() && op != GET; ++i) { auto fa = resolve(a, path, i); if (fa.n && fa.parent && fa.parent->k == N::Keyed && !(op == DEL && i == path.size())) { auto fb = resolve(b, path, i); RV_CHECK("C14", fb.n && fb.parent->k == N::Keyed && fb.parent->kids.size() == fa.parent->kids.size() && fb.index == fa.index, "key-changed", "the key of the element at /" << join(segs(path.begin(), path.begin() + (std::ptrdiff_t)i)) << ": " << ctxt); vf::count("ev.key_checked"); } } }
        // ---- the at_path helpers agree with the verbs
        if (!fired && is_prop("C11") && r.chance(1, 6))
        {
            T copy = before; T model = before; N mt = build(model); auto f = resolve(mt, path, path.size()); int seen_ = 0;
            try { kl::json::serialize_context sc{in.doc}; auto v = serialize_at_path(res.value, p.view(), sc); T now = res.value; N nt = build(now); auto g = resolve(nt, path, path.size()); VF_CHECK(g.n && sameJ(toJ(v), g.n->enc(true), true), "serialize_at_path", ctxt); seen_ = 1; } catch (const resource_error&) { T now = res.value; N nt = build(now); VF_CHECK(!resolve(nt, path, path.size()).n, "serialize_at_path-missing", ctxt); }
            input in2{r, body}; bool threw = false, wrote = false, rejd = false;
            try { deserialize_at_path(copy, p.view(), in2.doc, ctx); wrote = true; } catch (const resource_error&) { threw = true; } catch (const kl::serialization::deserialize_error&) { rejd = true; }
            if (!f.n) VF_CHECK(threw && eq(copy, before, true), "deserialize_at_path-missing", ctxt);
            else { bool okm = true; try { f.n->dec(body); } catch (rej&) { okm = false; } VF_CHECK(okm ? wrote : rejd, "deserialize_at_path-verdict", ctxt); if (okm && wrote) VF_CHECK(eq(copy, model, true), "deserialize_at_path", ctxt); }
            vf::count("ev.at_path"); (void)seen_;
        }
    }
    vf::sample(log);
}
template <class T> struct enroll { enroll(const char* n) { roots().push_back({n, &session<T>}); } };
#define VF_ROOT(T) static rm::enroll<T> VF_CAT(reg_, __LINE__){#T};
#define VF_CAT(a, b) VF_CAT2(a, b)
#define VF_CAT2(a, b) a##b
} // namespace rm

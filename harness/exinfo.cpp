// C23: exception_info against a per-object model; --mode mt: transport between threads (TSan).
#include "vf.hpp"
#include <atomic>
#include <memory>
#include <optional>
#include <stdexcept>
#include <thread>
#include "kl/exception_info.hpp"
using vf::rng;
struct token { int id; static std::atomic<int> live; explicit token(int i) : id(i) { ++live; } token(const token& o) : id(o.id) { ++live; } token(token&& o) noexcept : id(o.id) { ++live; } token& operator=(const token&) = default; ~token() { --live; } };
std::atomic<int> token::live{0};
static std::ostream& operator<<(std::ostream& o, const token& t) { return o << "tok" << t.id; }
struct tag_tok { using type = token; };
struct tag_str { using type = std::string; };
struct tag_str2 { using type = std::string; };
struct tag_int { using type = int; };
struct blob { unsigned char b[2]; };
struct tag_blob { using type = blob; };
struct tag_ptr { using type = std::unique_ptr<int>; }; // move-only, shared between copies
using entry = std::pair<int, std::string>; // tag number, rendered value
struct model { std::vector<entry> st; }; // back = most recent
static std::string rend(const token& t) { return "tok" + std::to_string(t.id); }
template <class T> std::string rend(const T* p)
{
    if (!p) return "<none>";
    if constexpr (std::is_same_v<T, token>) return rend(*p);
    else if constexpr (std::is_same_v<T, std::string>) return *p;
    else if constexpr (std::is_same_v<T, int>) return std::to_string(*p);
    else if constexpr (std::is_same_v<T, blob>) return std::to_string(p->b[0]) + ":" + std::to_string(p->b[1]);
    else return std::to_string(**p);
}
static std::string expect(const model& m, int tag) { for (auto i = m.st.rbegin(); i != m.st.rend(); ++i) if (i->first == tag) return i->second; return "<none>"; }
template <class X> std::string lookup(X& x, int tag)
{
    switch (tag) { case 0: return rend(x.template get<tag_tok>()); case 1: return rend(x.template get<tag_str>()); case 2: return rend(x.template get<tag_str2>()); case 3: return rend(x.template get<tag_int>()); case 4: return rend(x.template get<tag_blob>()); default: return rend(x.template get<tag_ptr>()); }
}
static const char* tagname[] = {"tag_tok", "tag_str", "tag_str2", "tag_int", "tag_blob", "tag_ptr"};
static void attach(rng& r, kl::exception_info& x, model& m)
{
    int tag = (int)r.below(6), v = (int)r.below(1000); bool mv = r.coin(); kl::exception_info* back = nullptr;
    switch (tag)
    {
    case 0: { token t{v}; back = mv ? &x.set<tag_tok>(std::move(t)) : &x.set<tag_tok>(t); m.st.emplace_back(0, rend(token{v})); break; }
    case 1: { std::string s = "s" + std::to_string(v); m.st.emplace_back(1, s); back = mv ? &x.set<tag_str>(std::move(s)) : &x.set<tag_str>(s); break; }
    case 2: { std::string s(v % 40, 'x'); m.st.emplace_back(2, s); back = mv ? &x.set<tag_str2>(std::move(s)) : &x.set<tag_str2>(s); break; }
    case 3: m.st.emplace_back(3, std::to_string(v)); back = &x.set<tag_int>(v); break;
    case 4: { blob b{{(unsigned char)v, 7}}; m.st.emplace_back(4, rend(&b)); back = &x.set<tag_blob>(b); break; }
    default: m.st.emplace_back(5, std::to_string(v)); back = &x.set<tag_ptr>(std::make_unique<int>(v));
    }
    VF_CHECK(back == &x, "set-result", "set does not return the object"); vf::count("op.set");
}
static void detach(rng& r, kl::exception_info& x, model& m)
{
    int tag = (int)r.below(6);
    switch (tag) { case 0: x.unset<tag_tok>(); break; case 1: x.unset<tag_str>(); break; case 2: x.unset<tag_str2>(); break; case 3: x.unset<tag_int>(); break; case 4: x.unset<tag_blob>(); break; default: x.unset<tag_ptr>(); }
    for (std::size_t i = m.st.size(); i--;) if (m.st[i].first == tag) { if (i + 1 != m.st.size()) vf::count("ev.unset_inner"); m.st.erase(m.st.begin() + i); vf::count("op.unset"); return; }
    vf::count("op.unset_absent");
}
static void verify(const kl::exception_info& x, const model& m, const char* what)
{
    for (int t = 0; t < 6; ++t) { auto g = lookup(x, t), g2 = lookup(const_cast<kl::exception_info&>(x), t); VF_CHECK(g == expect(m, t) && g2 == g, "lookup", what << ": " << tagname[t] << " is " << g << " expected " << expect(m, t) << " (" << m.st.size() << " attached)"); }
    // diagnostics: one line per attached value, newest first
    std::string d = x.diagnostic_info(); std::vector<std::string> lines; std::istringstream is{d}; std::string l; while (std::getline(is, l)) lines.push_back(l);
    VF_CHECK(lines.size() == m.st.size() + 1, "diagnostic-lines", what << ": " << d);
    if (x.file()) VF_CHECK(lines[0].find(x.file()) != std::string::npos && lines[0].find(std::to_string(x.line())) != std::string::npos && (!x.function() || lines[0].find(x.function()) != std::string::npos), "diagnostic-location", what << ": " << d);
    if (lines.size() == m.st.size() + 1)
        for (std::size_t i = 0; i < m.st.size(); ++i)
        {
            auto& e = m.st[m.st.size() - 1 - i]; auto& ln = lines[i + 1];
            VF_CHECK(ln.rfind(std::string(tagname[e.first]) + " = ", 0) == 0, "diagnostic-tag", what << ": line " << ln << " for " << tagname[e.first]);
            if (e.first == 1 || e.first == 0 || e.first == 2 || e.first == 3) VF_CHECK(ln == std::string(tagname[e.first]) + " = " + e.second, "diagnostic-value", what << ": " << ln << " expected " << e.second);
            if (e.first == 4) { auto* b = x.get<tag_blob>(); unsigned v = (unsigned)std::stoi(e.second); std::string hex, want; char w[8]; std::snprintf(w, sizeof w, "%02X07", v); want = w; for (char c : ln.substr(ln.find('=') + 1)) if (std::isxdigit((unsigned char)c)) hex += (char)std::toupper(c); VF_CHECK(b && hex == want, "diagnostic-bytes", what << ": " << ln << " expected the bytes " << want); }
        }
}
struct my_error : std::runtime_error { int extra; my_error(const std::string& s, int e) : std::runtime_error(s), extra(e) {} };
struct plain { virtual ~plain() = default; int z = 5; };
struct object { kl::exception_info x; model m; const char* file = nullptr; int line = 0; };

static void one(rng& r, std::uint64_t)
{
    std::string log;
    {
        std::vector<std::unique_ptr<object>> pool; pool.push_back(std::make_unique<object>());
        for (unsigned steps = 4 + (unsigned)r.below(25); steps--;)
        {
            auto& o = *pool[r.below(pool.size())]; auto k = r.below(16); log += (char)('a' + k);
            switch (k)
            {
            case 0: case 1: case 2: case 3: attach(r, o.x, o.m); break;
            case 4: case 5: case 6: detach(r, o.x, o.m); break;
            case 7: if (pool.size() < 6) { auto n = std::make_unique<object>(); n->x = o.x; n->m = o.m; n->file = o.file; n->line = o.line; pool.push_back(std::move(n)); vf::count("op.copy"); } break;
            case 8: if (pool.size() < 6) { auto n = std::make_unique<object>(object{kl::exception_info{o.x}, o.m, o.file, o.line}); pool.push_back(std::move(n)); vf::count("op.copy"); } break;
            case 9: { auto& p = *pool[r.below(pool.size())]; p.x = o.x; p.m = o.m; p.file = o.file; p.line = o.line; vf::count("op.assign"); break; }
            case 10: { auto& p = *pool[r.below(pool.size())]; if (&p != &o) { p.x = std::move(o.x); p.m = o.m; p.file = o.file; p.line = o.line; o.x = kl::exception_info{}; o.m = {}; o.file = nullptr; o.line = 0; vf::count("op.move"); } break; }
            case 11: if (pool.size() > 1) { pool.erase(pool.begin() + (std::ptrdiff_t)r.below(pool.size())); vf::count("op.destroy"); } break;
            case 12: { o.file = "file.cpp"; o.line = (int)r.below(500); o.x = kl::exception_info{o.file, o.line, "fn"}; o.m = {}; break; }
            default:
            {
                // throw, catch in some way, maybe modify the caught one or a copy, rethrow, look again
                model m = o.m; auto how = r.below(4); bool rvalue = r.coin(); vf::count("op.throw");
                auto thrower = [&] {
                    if (how == 3) { if (rvalue) kl::throw_with_info(plain{}, kl::exception_info{o.x}); else { plain p; kl::throw_with_info(p, o.x); } }
                    if (rvalue) kl::throw_with_info(my_error{"what!", 42}, kl::exception_info{o.x}); else { my_error e{"what!", 42}; kl::throw_with_info(e, o.x); } };
                std::exception_ptr ep;
                try
                {
                    try { thrower(); }
                    catch (my_error& e) // derived catch, also as base below
                    {
                        VF_CHECK(e.extra == 42 && std::string(e.what()) == "what!", "payload", "exception content"); VF_CHECK(how != 3, "type", "caught other type");
                        auto* xi = kl::get_exception_info(e); VF_CHECK(xi, "no-info", "info lost when caught"); if (!xi) throw vf::abort_case{};
                        verify(*xi, m, "caught"); VF_CHECK(xi->file() == o.file && xi->line() == o.line, "location", "file/line lost");
                        if (how == 1) { attach(r, *xi, m); verify(*xi, m, "caught+set"); vf::count("ev.caught_modified"); }
                        if (how == 2) { kl::exception_info c{*xi}; model cm = m; detach(r, c, cm); attach(r, c, cm); verify(c, cm, "copy of caught"); verify(*xi, m, "caught after copy changed"); vf::count("ev.copy_modified"); }
                        ep = std::current_exception();
                        throw;
                    }
                    catch (plain& p) { VF_CHECK(p.z == 5 && how == 3, "payload", "plain"); auto* xi = kl::get_exception_info(p); VF_CHECK(xi, "no-info", "plain"); if (xi) { verify(*xi, m, "caught plain"); detach(r, *xi, m); verify(*xi, m, "caught plain -unset"); } ep = std::current_exception(); throw; }
                }
                catch (const std::exception& e) { auto* xi = kl::get_exception_info(e); VF_CHECK(xi, "no-info", "rethrown as base"); if (xi) verify(*xi, m, "rethrown"); auto d = kl::exception_diagnostic_info(e); VF_CHECK(d.find("what: what!") != std::string::npos && d.find("my_error") != std::string::npos, "diagnostic", d); vf::count("ev.rethrown"); }
                catch (const kl::exception_info& xi) { verify(xi, m, "caught as info"); vf::count("ev.rethrown"); }
                // via exception_ptr
                auto d = kl::exception_diagnostic_info(ep); for (auto& e : m.st) VF_CHECK(d.find(tagname[e.first]) != std::string::npos, "ptr-diagnostic", d);
                try { std::rethrow_exception(ep); } catch (const kl::exception_info& xi) { verify(xi, m, "exception_ptr"); }
                verify(o.x, o.m, "original after throw");
            }
            }
            for (auto& p : pool) { verify(p->x, p->m, "object"); VF_CHECK(p->x.line() == p->line && p->x.file() == p->file, "location", "file/line"); }
            // live tokens: at least one per distinct attached token value held by someone, at most one per attach
        }
        std::set<std::string> held; for (auto& p : pool) for (auto& e : p->m.st) if (e.first == 0) held.insert(e.second);
        VF_CHECK(token::live.load() >= (int)held.size(), "early-destroy", "values destroyed while still attached"); 
        if (held.empty()) VF_CHECK(token::live.load() == 0, "late-destroy", token::live.load() << " values alive though attached nowhere");
    }
    VF_CHECK(token::live.load() == 0, "lifetime", token::live.load() << " values not destroyed (or destroyed twice)"); token::live = 0;
    { struct np {}; std::runtime_error re{"x"}; VF_CHECK(!kl::get_exception_info(re), "no-info-expected", "plain exception has info"); }
    vf::seen(log); vf::sample(log);
}
static void mt(rng& r, std::uint64_t)
{
    model m; std::exception_ptr ep;
    { kl::exception_info x = KL_MAKE_EXCEPTION_INFO(); for (auto n = 1 + r.below(6); n--;) attach(r, x, m); try { kl::throw_with_info(my_error{"e", 1}, x); } catch (...) { ep = std::current_exception(); } }
    unsigned n = 2 + (unsigned)r.below(3); std::vector<std::thread> ts; std::vector<std::uint64_t> seeds; for (unsigned i = 0; i < n; ++i) seeds.push_back(r.next());
    std::atomic<int> bad{0}; std::atomic<bool> go{false};
    for (unsigned i = 0; i < n; ++i) ts.emplace_back([&, i] {
        while (!go) std::this_thread::yield();
        rng q{seeds[i]};
        try { std::rethrow_exception(ep); }
        catch (const my_error& e)
        {
            auto* xi = kl::get_exception_info(e); if (!xi) { ++bad; return; }
            for (int t = 0; t < 6; ++t) if (lookup(*xi, t) != expect(m, t)) ++bad;
            kl::exception_info c{*xi}; model cm = m; // private copy: changing it must not be visible, nor race
            for (int k = 0; k < 6; ++k)
            {
                int tag = (int)q.below(3);
                if (q.coin()) { if (tag == 0) c.unset<tag_tok>(); else if (tag == 1) c.unset<tag_str>(); else c.unset<tag_int>(); int tn = tag == 2 ? 3 : tag; for (std::size_t j = cm.st.size(); j--;) if (cm.st[j].first == tn) { cm.st.erase(cm.st.begin() + (std::ptrdiff_t)j); break; } }
                else { c.set<tag_int>((int)i); cm.st.emplace_back(3, std::to_string(i)); }
                for (int t = 0; t < 6; ++t) { if (lookup(c, t) != expect(cm, t)) ++bad; if (lookup(*xi, t) != expect(m, t)) ++bad; }
            }
            if (q.coin()) { kl::exception_info d = c; d = *xi; for (int t = 0; t < 6; ++t) if (lookup(d, t) != expect(m, t)) ++bad; }
            (void)kl::exception_diagnostic_info(e);
        }
    });
    go = true; for (auto& t : ts) t.join();
    VF_CHECK(bad == 0, "mt-lookup", bad << " wrong lookups with " << n << " threads"); ep = nullptr;
    VF_CHECK(token::live.load() == 0, "mt-lifetime", token::live.load() << " values left"); token::live = 0; vf::count("ev.mt_threads", n); vf::seen(seeds[0]);
}
int main(int c, char** v)
{
    bool m = false; for (int i = 1; i + 1 < c; ++i) if (std::string(v[i]) == "--mode") m = std::string(v[i + 1]) == "mt";
    return vf::run(c, v, [&](rng& r, std::uint64_t i) { m ? mt(r, i) : one(r, i); });
}

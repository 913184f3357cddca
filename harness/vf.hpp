// Common runtime for all harnesses: PRNG, case loop, oracle reporting, coverage.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <unordered_set>
#include <utility>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

namespace vf {

inline std::uint64_t mix(std::uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

inline std::uint64_t hash_bytes(std::string_view s, std::uint64_t h = 1469598103934665603ull)
{
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return mix(h ^ s.size());
}

struct rng
{
    std::uint64_t s;
    explicit rng(std::uint64_t seed = 1) : s{mix(seed)} {}
    std::uint64_t next() { s += 0x9e3779b97f4a7c15ull; std::uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    // uniform in [0, n)
    std::uint64_t below(std::uint64_t n) { return n ? next() % n : 0; }
    std::int64_t range(std::int64_t lo, std::int64_t hi) { return lo + (std::int64_t)below((std::uint64_t)(hi - lo) + 1); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    bool coin() { return next() & 1; }
    template <class C> auto pick(C& c) -> decltype(c[c.size()]) { return c[below(c.size())]; }

    template <class T, std::size_t N> T& pick(T (&a)[N]) { return a[below(N)]; }
};

struct failure { std::string key, msg; };

struct state
{
    std::string prop = "?";
    std::uint64_t seed = 1, cases = 100, shard = 0, shards = 1;
    bool thorough = false;
    bool replay = false;
    std::uint64_t replay_case = 0;
    double budget = 0;
    std::string progress_file;
    std::uint64_t* progress = nullptr; // mmapped: current case seed
    std::uint64_t evaluations = 0, cur_case = 0;
    std::unordered_set<std::uint64_t> distinct;
    std::map<std::string, std::uint64_t> counters;
    std::vector<std::string> samples;
    std::vector<std::pair<std::string, std::string>> fails; // key, msg
    std::uint64_t nfails = 0;
};
inline state& st() { static state* s = new state; return *s; }

inline std::string jesc(std::string_view s)
{
    std::string o = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o + "\"";
}

inline void count(const std::string& name, std::uint64_t n = 1) { st().counters[name] += n; }
// A distinct, non-trivial situation, identified by its description/hash.
inline void seen(std::uint64_t h) { st().distinct.insert(h); }
inline void seen(std::string_view s) { seen(hash_bytes(s)); }
inline void sample(const std::string& s, std::size_t max = 4)
{
    if (st().samples.size() < max) st().samples.push_back(s.substr(0, 600));
}
inline void eval(std::uint64_t n = 1) { st().evaluations += n; }

// Records an oracle failure; the run continues unless there are very many.
inline void fail(const std::string& key, const std::string& msg)
{
    auto& s = st();
    ++s.nfails;
    if (s.fails.size() < 5)
    {
        s.fails.emplace_back(key, msg);
        std::fprintf(stderr, "VF-FAIL case=%llu key=%s :: %s\n", (unsigned long long)s.cur_case,
                     key.c_str(), msg.substr(0, 3000).c_str());
        std::printf("VF-FAIL {\"case\":\"%llu\",\"key\":%s,\"msg\":%s}\n", (unsigned long long)s.cur_case,
                    jesc(key).c_str(), jesc(msg.substr(0, 1500)).c_str());
        std::fflush(stdout);
    }
}
struct abort_case {};
#define VF_CHECK(cond, key, ...)                                                       \
    do { if (!(cond)) { std::ostringstream vf_os; vf_os << __VA_ARGS__;                \
         ::vf::fail(key, std::string(#cond " : ") + vf_os.str()); } } while (0)

inline void report()
{
    auto& s = st();
    std::ostringstream o;
    o << "VF-STATS {\"evaluations\":" << s.evaluations << ",\"distinct\":[";
    // distinct hashes are folded by the driver: emit up to a cap, plus the count
    std::size_t n = 0;
    for (auto h : s.distinct) { if (n == 200000) break; o << (n++ ? "," : "") << (h >> 12); }
    o << "],\"distinct_n\":" << s.distinct.size() << ",\"counters\":{";
    bool first = true;
    for (auto& [k, v] : s.counters) { o << (first ? "" : ",") << jesc(k) << ":" << v; first = false; }
    o << "},\"samples\":[";
    first = true;
    for (auto& x : s.samples) { o << (first ? "" : ",") << jesc(x); first = false; }
    o << "],\"fails\":" << s.nfails << "}\n";
    std::fputs(o.str().c_str(), stdout);
    std::fflush(stdout);
}

inline bool parse_args(int argc, char** argv)
{
    auto& s = st();
    for (int i = 1; i + 1 < argc; i += 2)
    {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--seed") s.seed = std::strtoull(v.c_str(), nullptr, 10);
        else if (k == "--cases") s.cases = std::strtoull(v.c_str(), nullptr, 10);
        else if (k == "--shard") s.shard = std::strtoull(v.c_str(), nullptr, 10);
        else if (k == "--shards") s.shards = std::strtoull(v.c_str(), nullptr, 10);
        else if (k == "--prop") s.prop = v;
        else if (k == "--thorough") s.thorough = v == "1";
        else if (k == "--replay") { s.replay = true; s.replay_case = std::strtoull(v.c_str(), nullptr, 10); }
        else if (k == "--progress") s.progress_file = v;
        else if (k == "--budget") s.budget = std::strtod(v.c_str(), nullptr);
    }
    if (!s.progress_file.empty())
    {
        int fd = ::open(s.progress_file.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
        if (fd >= 0 && ::ftruncate(fd, 4096) == 0)
        {
            void* p = ::mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (p != MAP_FAILED) s.progress = static_cast<std::uint64_t*>(p);
        }
        if (fd >= 0) ::close(fd);
    }
    return true;
}

// Runs `one(rng, index)` for every case of this shard. The case id (also the seed of its
// PRNG) is what --replay takes. The index is recoverable: systematic cases use it.
template <class F>
int run(int argc, char** argv, F one)
{
    parse_args(argc, argv);
    auto& s = st();
    auto exec = [&](std::uint64_t idx) {
        // case id = index; PRNG = mix(seed, index)
        s.cur_case = idx;
        if (s.progress) { s.progress[1] = 1; s.progress[0] = idx; }
        rng r{mix(s.seed * 0x1000003ull) ^ mix(idx + 77)};
        eval();
        try { one(r, idx); }
        catch (const abort_case&) {}
        catch (const std::exception& e) { fail("escaped-exception", std::string("unexpected exception: ") + e.what()); }
        catch (...) { fail("escaped-exception", "unexpected non-std exception"); }
    };
    if (s.replay)
        exec(s.replay_case);
    else
    {
        const auto start = std::chrono::steady_clock::now();
        for (std::uint64_t i = s.shard; i < s.cases; i += s.shards)
        {
            exec(i);
            if (s.nfails >= 20) break;
            // On a slow machine fewer cases are run; the evidence says how many.
            if (s.budget > 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count() > s.budget) { count("budget_used_up"); break; }
        }
    }
    report();
    return s.nfails ? 1 : 0;
}

} // namespace vf

// C24: file_view over many files and paths, with failures injected at each system call and a ledger of descriptors and mappings.
#include "vf.hpp"
#include <cerrno>
#include <cstdarg>
#include <memory>
#include <optional>
#include <system_error>
#include <dirent.h>
#include <fcntl.h>
#include <ftw.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include "kl/file_view.hpp"
using vf::rng;

// ---- interposed system calls (link-time wrapping); active only inside file_view code
namespace mon {
bool active = false;
int fail_at = -1, calls = 0, fail_errno = 0; std::string failed_call, log;
std::set<int> fds; std::map<void*, std::size_t> maps; std::vector<std::string> bad;
bool inject(const char* name) { if (!active) return false; log += name; log += ' '; if (calls++ == fail_at) { failed_call = name; errno = fail_errno; return true; } return false; }
void opened(int fd) { if (active && fd >= 0) fds.insert(fd); }
}
extern "C" {
int __real_open(const char*, int, ...); int __real_open64(const char*, int, ...); int __real_openat(int, const char*, int, ...);
int __real_close(int); int __real_fstat(int, struct stat*); int __real_fstat64(int, struct stat64*); int __real_stat(const char*, struct stat*);
void* __real_mmap(void*, size_t, int, int, int, off_t); void* __real_mmap64(void*, size_t, int, int, int, off64_t); int __real_munmap(void*, size_t);
ssize_t __real_read(int, void*, size_t); ssize_t __real_pread(int, void*, size_t, off_t); off_t __real_lseek(int, off_t, int);
#define MODE(flags) mode_t m = 0; if ((flags) & O_CREAT) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
int __wrap_open(const char* p, int f, ...) { MODE(f) if (mon::inject("open")) return -1; int fd = __real_open(p, f, m); mon::opened(fd); return fd; }
int __wrap_open64(const char* p, int f, ...) { MODE(f) if (mon::inject("open")) return -1; int fd = __real_open64(p, f, m); mon::opened(fd); return fd; }
int __wrap_openat(int d, const char* p, int f, ...) { MODE(f) if (mon::inject("open")) return -1; int fd = __real_openat(d, p, f, m); mon::opened(fd); return fd; }
int __wrap_fstat(int fd, struct stat* s) { if (mon::inject("fstat")) return -1; return __real_fstat(fd, s); }
int __wrap_fstat64(int fd, struct stat64* s) { if (mon::inject("fstat")) return -1; return __real_fstat64(fd, s); }
int __wrap_stat(const char* p, struct stat* s) { if (mon::inject("stat")) return -1; return __real_stat(p, s); }
off_t __wrap_lseek(int fd, off_t o, int w) { if (mon::inject("lseek")) return -1; return __real_lseek(fd, o, w); }
ssize_t __wrap_read(int fd, void* b, size_t n) { if (mon::inject("read")) return -1; return __real_read(fd, b, n); }
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o) { if (mon::inject("read")) return -1; return __real_pread(fd, b, n, o); }
void* __wrap_mmap(void* a, size_t n, int p, int f, int fd, off_t o) { if (mon::inject("mmap")) return MAP_FAILED; void* r = __real_mmap(a, n, p, f, fd, o); if (mon::active && r != MAP_FAILED) mon::maps[r] = n; return r; }
void* __wrap_mmap64(void* a, size_t n, int p, int f, int fd, off64_t o) { if (mon::inject("mmap")) return MAP_FAILED; void* r = __real_mmap64(a, n, p, f, fd, o); if (mon::active && r != MAP_FAILED) mon::maps[r] = n; return r; }
// close and munmap do their work and then may report a failure: a retry would release something twice
int __wrap_close(int fd)
{
    if (!mon::active) return __real_close(fd);
    if (!mon::fds.erase(fd)) { mon::bad.push_back("close of descriptor " + std::to_string(fd) + " that is not open"); errno = EBADF; return -1; }
    int r = __real_close(fd); if (mon::inject("close")) return -1; return r;
}
int __wrap_munmap(void* p, size_t n)
{
    if (!mon::active) return __real_munmap(p, n);
    auto i = mon::maps.find(p);
    if (i == mon::maps.end()) { mon::bad.push_back("munmap of an address that is not mapped"); errno = EINVAL; return -1; }
    if (i->second != n) mon::bad.push_back("munmap of " + std::to_string(n) + " bytes of a mapping of " + std::to_string(i->second));
    __real_munmap(p, i->second); mon::maps.erase(i); if (mon::inject("munmap")) return -1; return 0;
}
}
struct scope { scope() { mon::active = true; } ~scope() { mon::active = false; } };
static std::string g_dir;
static int rm1(const char* p, const struct stat*, int, struct FTW*) { return ::remove(p); }
static void cleanup() { if (!g_dir.empty()) ::nftw(g_dir.c_str(), rm1, 8, FTW_DEPTH | FTW_PHYS); }
static int count_fds() { int n = 0; DIR* d = ::opendir("/proc/self/fd"); if (!d) return -1; while (::readdir(d)) ++n; ::closedir(d); return n; }
static int count_maps(const std::string& path) { FILE* f = std::fopen("/proc/self/maps", "r"); if (!f) return 0; char b[4096]; int n = 0; while (std::fgets(b, sizeof b, f)) if (std::strstr(b, path.c_str())) ++n; std::fclose(f); return n; }
static void write_file(const std::string& p, const std::string& c) { FILE* f = std::fopen(p.c_str(), "wb"); if (!f) throw std::runtime_error("scratch"); if (!c.empty()) std::fwrite(c.data(), 1, c.size(), f); std::fclose(f); }

static bool same(const kl::file_view& v, const std::string& c) { auto b = v.get_bytes(); return b.size() == c.size() && (c.empty() || std::memcmp(b.data(), c.data(), c.size()) == 0); }

static void clean(const char* what, int fds0)
{
    VF_CHECK(mon::bad.empty(), "double-release", what << ": " << (mon::bad.empty() ? "" : mon::bad[0]) << " calls: " << mon::log);
    VF_CHECK(mon::fds.empty(), "fd-leak", what << ": " << mon::fds.size() << " descriptors still open; calls: " << mon::log);
    VF_CHECK(mon::maps.empty(), "map-leak", what << ": " << mon::maps.size() << " mappings left; calls: " << mon::log);
    VF_CHECK(count_fds() == fds0, "fd-leak", what << ": descriptors in /proc/self/fd changed from " << fds0 << " to " << count_fds());
    VF_CHECK(count_maps(g_dir) == 0, "map-leak", what << ": the file is still mapped");
}
static void one(rng& r, std::uint64_t idx)
{
    if (g_dir.empty()) { const char* t = std::getenv("TMPDIR"); std::string d = std::string(t && *t ? t : "/tmp") + "/vf-fileview-XXXXXX"; if (!::mkdtemp(d.data())) throw std::runtime_error("mkdtemp"); g_dir = d; std::atexit(cleanup); }
    mon::fail_at = -1; mon::calls = 0; mon::log.clear(); mon::bad.clear(); mon::fds.clear(); mon::maps.clear(); mon::failed_call.clear();
    static const std::size_t sizes[] = {0, 1, 2, 4095, 4096, 4097, 8191, 8192, 8193, 65536, 65535, 12288};
    std::size_t n = r.chance(1, 3) ? r.below(20000) : r.chance(1, 40) ? 1000000 + r.below(3000000) : r.pick(sizes);
    std::string content(n, 0); std::uint64_t x = 0; for (std::size_t i = 0; i < n; ++i) { if (i % 8 == 0) x = r.next(); content[i] = (char)(x >> (8 * (i % 8))); }
    std::string f = g_dir + "/f" + std::to_string(r.below(4)) + (r.chance(1, 5) ? " \xc3\xa9 x" : ""); write_file(f, content);
    int fds0 = count_fds();
    if (idx % 500 == 7) // larger than 32 bits can say (sparse)
    {
        static const long long bigs[] = {(1LL << 31) - 1, 1LL << 31, (1LL << 32) - 1, 1LL << 32, (1LL << 32) + 5, (1LL << 33) + 4097}; long long big = bigs[idx / 500 % 6];
        std::string g = g_dir + "/big"; int fd = ::open(g.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); std::map<long long, char> at; at[big - 1] = 'e'; at[0] = 'b'; for (int i = 0; i < 4; ++i) at[(long long)r.below((std::uint64_t)big)] = 'm';
        bool made = fd != -1 && ::ftruncate(fd, big) == 0; for (auto [o, c] : at) made = made && ::pwrite(fd, &c, 1, o) == 1; if (fd != -1) ::close(fd);
        if (made)
        {
            { scope s; kl::file_view v{g.c_str()}; auto b = v.get_bytes(); VF_CHECK((long long)b.size() == big, "big-size", "file of " << big << " bytes seen as " << b.size());
              for (auto [o, c] : at) VF_CHECK((char)b[(std::size_t)o] == c && (o + 1 == big || at.count(o + 1) || (char)b[(std::size_t)o + 1] == 0), "big-content", "offset " << o << " of " << big); }
            clean("big file", fds0); vf::count("ev.big");
        }
        else vf::count("ev.big_skipped");
        ::unlink(g.c_str()); vf::seen((std::uint64_t)big); return;
    }
    switch (idx % 6)
    {
    case 0: case 1: // view, optionally unlinked meanwhile, moved around
    {
        std::string p = f; if (r.chance(1, 4)) { p = g_dir + "/link"; ::unlink(p.c_str()); if (::symlink(f.c_str(), p.c_str())) throw std::runtime_error("symlink"); vf::count("ev.symlink"); }
        {
            scope s; std::unique_ptr<char[]> path(new char[p.size() + 1]); std::memcpy(path.get(), p.c_str(), p.size() + 1);
            auto v = std::make_unique<kl::file_view>(path.get()); path.reset();
            VF_CHECK(same(*v, content), "content", "size " << n << " seen " << v->get_bytes().size());
            auto b1 = v->get_bytes(), b2 = v->get_bytes(); VF_CHECK(b1.data() == b2.data() && b1.size() == b2.size(), "stable", "two looks differ");
            if (r.coin()) { ::unlink(f.c_str()); VF_CHECK(same(*v, content), "content-unlinked", "after unlink"); vf::count("ev.unlinked"); }
            if (r.coin()) { kl::file_view w{std::move(*v)}; VF_CHECK(same(w, content), "content-moved", "moved into another view"); v.reset(); VF_CHECK(same(w, content), "content-moved", "source destroyed"); vf::count("ev.moved"); }
            if (v && r.coin()) { std::string g = g_dir + "/other", c2 = "other content"; write_file(g, c2); kl::file_view w{g.c_str()}; VF_CHECK(same(w, c2), "content", "second view"); w = std::move(*v); v.reset(); VF_CHECK(same(w, content), "content-assigned", "move assigned"); vf::count("ev.move_assigned"); }
        }
        clean("view", fds0); vf::count(n ? "ev.viewed" : "ev.viewed_empty"); break;
    }
    case 2: // several views alive at once, destroyed in any order
    {
        { scope s; std::vector<std::unique_ptr<kl::file_view>> vs; for (int i = 0; i < 3; ++i) vs.push_back(std::make_unique<kl::file_view>(f.c_str()));
          while (!vs.empty()) { for (auto& v : vs) VF_CHECK(same(*v, content), "content-many", "size " << n); vs.erase(vs.begin() + (std::ptrdiff_t)r.below(vs.size())); } }
        clean("many views", fds0); vf::count("ev.many"); break;
    }
    case 3: // cannot be viewed
    {
        std::string d = g_dir + "/dir"; ::mkdir(d.c_str(), 0700); write_file(d + "/entry", "x"); std::string lp = g_dir + "/loop"; (void)!::symlink(lp.c_str(), lp.c_str()); std::string dl = g_dir + "/dangling"; (void)!::symlink((g_dir + "/nowhere").c_str(), dl.c_str());
        struct stat st; ::stat(d.c_str(), &st);
        std::vector<std::pair<std::string, int>> bad = {{g_dir + "/missing", ENOENT}, {g_dir + "/nodir/x", ENOENT}, {"", ENOENT}, {f + "/x", ENOTDIR}, {dl, ENOENT}, {lp, ELOOP}, {g_dir + "/" + std::string(5000, 'n'), ENAMETOOLONG}};
        if (st.st_size > 0) bad.emplace_back(d, 0);
        auto& [p, code] = bad[r.below(bad.size())]; bool threw = false;
        { scope s; try { kl::file_view v{p.c_str()}; } catch (const std::system_error& e) { threw = true; mon::active = false; VF_CHECK(code == 0 || e.code().value() == code, "code", vf::jesc(p.substr(0, 80)) << " code " << e.code().value() << " expected " << code); } }
        VF_CHECK(threw, "no-error", "opening " << vf::jesc(p.substr(0, 80)) << " succeeded"); clean("bad path", fds0); vf::count("ev.bad_path"); if (&p == &bad.back().first && st.st_size > 0) vf::count("ev.directory"); break;
    }
    default: // fail the k-th call
    {
        // first learn which calls are made
        { scope s; kl::file_view v{f.c_str()}; } clean("dry run", fds0); int total = mon::calls; mon::calls = 0; mon::log.clear();
        int k = (int)r.below((std::uint64_t)total); static const int errs[] = {EIO, EACCES, EMFILE, ENOMEM, EOVERFLOW, EAGAIN, ENODEV};
        mon::fail_at = k; mon::fail_errno = r.pick(errs); bool threw = false; int code = 0; std::optional<bool> ok;
        { scope s; try { kl::file_view v{f.c_str()}; mon::active = false; ok = same(v, content); mon::active = true; } catch (const std::system_error& e) { threw = true; code = e.code().value(); } }
        bool release = mon::failed_call == "close" || mon::failed_call == "munmap";
        if (!release) { VF_CHECK(threw, "fault-ignored", "failure of " << mon::failed_call << " not reported; calls: " << mon::log); VF_CHECK(!threw || code == mon::fail_errno, "fault-code", "failure of " << mon::failed_call << " with " << mon::fail_errno << " reported as " << code); }
        else VF_CHECK(!threw && ok && *ok, "release-fault", "failure of " << mon::failed_call << " disturbed the view");
        clean(("fault in " + mon::failed_call).c_str(), fds0); vf::count("ev.fault_" + mon::failed_call); vf::count("ev.faults"); vf::seen(mon::failed_call + std::to_string(mon::fail_errno) + ":" + std::to_string(n)); break;
    }
    }
    vf::seen(idx % 6 * 10000000 + n); vf::sample(std::to_string(idx % 6) + " size " + std::to_string(n) + " calls " + mon::log);
}
int main(int c, char** v) { int rc = vf::run(c, v, one); return rc; }

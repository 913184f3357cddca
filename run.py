#!/usr/bin/env python3
"""Driver: run.py <PROPERTY> [quick|thorough]   builds harnesses from /repo's working tree with
sanitizers, runs them, judges what their monitors saw, writes evidence/<PROPERTY>.json.
   run.py --replay <replay file>      re-runs the single failing case of a reported violation.
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Exit 2: check error."""
import concurrent.futures as cf, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
sys.path.insert(0, ROOT)
from checks import CHECKS, VARIANTS  # noqa

BUILD = os.path.join(ROOT, "build")
NPROC = os.cpu_count() or 4

class CheckError(Exception):
    pass

class Unusable(CheckError):
    """The repository's own headers or sources reject what the harness, using the public interface, does with them."""

def log(*a):
    s = " ".join(str(x) for x in a)
    print("".join(c if " " <= c <= "~" or c in "\n\t" else "\\x%02x" % ord(c) for c in s).encode("utf-8", "backslashreplace").decode(), flush=True)

def read_progress(path):
    """The case being executed, or None before the first."""
    try:
        with open(path, "rb") as f:
            a, b = struct.unpack("<QQ", f.read(16))
            return a if b else None
    except Exception:
        return None

def asleep(pid):
    """Whether all threads of the process are waiting: it is deadlocked, not starved of processor time."""
    for _ in range(3):
        try:
            tasks = os.listdir("/proc/%d/task" % pid)
            for t in tasks:
                with open("/proc/%d/task/%s/stat" % (pid, t)) as f:
                    if f.read().rsplit(")", 1)[1].split()[0] != "S":
                        return False
        except (OSError, IndexError):
            return False
        time.sleep(0.7)
    return True

DEADLOCK = "vf: every thread has been waiting in one case for"

def sh(cmd, timeout=None, env=None, cwd=None, progress=None, stuck=None):
    """Runs cmd; with `progress`, gives up as soon as one case takes longer than `stuck` seconds."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd,
                         start_new_session=True)
    end = time.time() + timeout if timeout else None
    last, since = None, time.time()
    note = ""
    try:
        while True:
            try:
                out, err = p.communicate(timeout=2 if progress else timeout)
                return p.returncode, out.decode("utf-8", "replace"), err.decode("utf-8", "replace"), False
            except subprocess.TimeoutExpired:
                now = time.time()
                if not progress or (end and now > end):
                    raise
                cur = read_progress(progress)
                if cur != last:
                    last, since = cur, now
                elif stuck and cur is not None and now - since > stuck:
                    if asleep(p.pid):
                        note = "\n%s %d s\n" % (DEADLOCK, stuck)
                    raise
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        return p.returncode, out.decode("utf-8", "replace"), err.decode("utf-8", "replace") + note, True

# ---------------------------------------------------------------- building
def compile_one(cc, flags, src, extra):
    """Compiles src to a content-addressed object; returns (obj, stderr)."""
    pre = [cc, *flags, *extra, "-E", src]
    rc, out, err, _ = sh(pre, timeout=600)
    if rc:
        return None, err
    key = hashlib.sha256((" ".join([cc, *flags, *extra]) + "\0" + src + "\0" + out).encode()).hexdigest()[:24]
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    obj = os.path.join(BUILD, "obj", key + ".o")
    if os.path.exists(obj):
        return obj, ""
    tmp = obj + ".%d.tmp" % os.getpid()
    rc, _, err, to = sh([cc, *flags, *extra, "-c", src, "-o", tmp], timeout=800)
    if rc or to:
        return None, err
    os.replace(tmp, obj)
    return obj, ""

def build(job, more=()):
    """Returns the executable for a job, trying the variant's compilers in order."""
    var = VARIANTS[job["variant"]]
    errors = []
    srcs = [os.path.join(ROOT, "harness", s) for s in job["src"]]
    srcs += [os.path.join(REPO, s) for s in job.get("repo_src", [])]
    for cc, cflags in var["compilers"]:
        flags = ["-std=c++17", *cflags, *job.get("pre_flags", []), "-I" + os.path.join(REPO, "include"),
                 "-I" + os.path.join(ROOT, "harness"), "-DRAPIDJSON_HAS_STDSTRING=1", "-w", *job.get("flags", []), *more]
        with cf.ThreadPoolExecutor(NPROC) as ex:
            res = list(ex.map(lambda s: compile_one(cc, flags, s, []), srcs))
        if any(o is None for o, _ in res):
            errors.append("\n".join(e[:6000] for o, e in res if o is None)[:20000])
            continue
        objs = [o for o, _ in res]
        libs = job.get("libs", [])
        key = hashlib.sha256((cc + " ".join(cflags + objs + libs)).encode()).hexdigest()[:16]
        os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
        exe = os.path.join(BUILD, "bin", "%s-%s" % (job["name"], key))
        if not os.path.exists(exe):
            tmp = exe + ".%d.tmp" % os.getpid()
            rc, _, err, _ = sh([cc, *cflags, *objs, "-o", tmp, *libs, "-lpthread"], timeout=300)
            if rc:
                errors.append(err[-4000:])
                continue
            os.replace(tmp, exe)
        return exe
    text = "\n----\n".join(errors)
    if job.get("fallback") and not more:
        # A part of the harness that must compile to be checked at all (constant evaluation) does not.
        exe = build(job, job["fallback"]["flags"])
        job["broken"] = (job["fallback"]["key"], job["fallback"]["what"] + "\n" + text[:3000])
        return exe
    # gcc and clang name the file an error is in at the start of the line; every attempt must fail inside the repository
    mine = re.compile(r"^%s/[^:\n]+:\d+:\d+: (?:fatal )?error:" % re.escape(os.path.normpath(REPO)), re.M)
    if errors and all(mine.search(e) for e in errors):
        raise Unusable("cannot build %s:\n%s" % (job["name"], text))
    raise CheckError("cannot build %s:\n%s" % (job["name"], text))

# ---------------------------------------------------------------- running
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=1:detect_stack_use_after_return=1:allocator_may_return_null=1:max_allocation_size_mb=4096:handle_abort=1:symbolize=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=77",
    "LSAN_OPTIONS": "exitcode=78",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=77:second_deadlock_stack=1:report_thread_leaks=1",
}

def crash_key(err, rc):
    m = re.search(r"SUMMARY: (\w+Sanitizer):? ?([\w\- ]+)", err)
    kind = None
    if m:
        kind = m.group(1) + ":" + re.sub(r"\s+", "-", m.group(2).strip())[:60]
    m2 = re.search(r"runtime error: ([^\n]+)", err)
    if m2:
        kind = "UBSan:" + re.sub(r"0x[0-9a-f]+|\d+", "N", m2.group(1))[:80].replace(" ", "-")
    m3 = re.search(r"Assertion `([^\n]*?)' failed", err)
    if m3:
        kind = "assert:" + m3.group(1)[:80].replace(" ", "")
    if "std::length_error" in err or "std::bad_alloc" in err:
        kind = (kind or "") + "+alloc"
    m4 = re.search(r"terminate called after throwing an instance of '([^']+)'", err)
    if m4 and not kind:
        kind = "terminate:" + m4.group(1)
    if not kind:
        kind = "signal-%d" % -rc if rc < 0 else "exit-%d" % rc
    where = ""
    for f in re.finditer(r"#\d+ 0x[0-9a-f]+ in (.+?) (/repo/[^\s:]+)", err):
        where = "@" + os.path.basename(f.group(2))
        break
    return "crash:" + kind + where

def run_shard(exe, args, timeout, env_extra, progress, stuck=None):
    env = dict(os.environ)
    env.update(SAN_ENV)
    env.update(env_extra or {})
    cmd = [exe, *args, "--progress", progress]
    rc, out, err, to = sh(cmd, timeout=timeout, env=env, progress=progress, stuck=stuck)
    lsan_broken = "LeakSanitizer has encountered a fatal error" in err or "LeakSanitizer does not work under ptrace" in err
    if lsan_broken:
        env["ASAN_OPTIONS"] += ":detect_leaks=0"
        rc, out, err, to = sh(cmd, timeout=timeout, env=env, progress=progress, stuck=stuck)
    case = read_progress(progress)
    return dict(rc=rc, out=out, err=err, timeout=to, case=case, cmd=cmd, lsan_broken=lsan_broken)

def judge(job, r):
    """-> (stats|None, [violations(key,msg,case)], inconclusive|None)"""
    stats, viol = None, []
    for line in r["out"].splitlines():
        if line.startswith("VF-STATS "):
            stats = json.loads(line[9:])
        elif line.startswith("VF-FAIL "):
            d = json.loads(line[8:])
            viol.append((d["key"], d["msg"], int(d["case"])))
    if r["timeout"]:
        return stats, viol, "timeout"
    if r["rc"] == 0 and stats:
        return stats, viol, None
    if r["rc"] == 1 and stats and viol:
        return stats, viol, None
    if r["rc"] == 3:
        return stats, viol, "harness reported an environment problem: " + r["err"][-500:]
    leak = "LeakSanitizer" in r["err"] and r["rc"] in (77, 78)
    viol.append((crash_key(r["err"], r["rc"]), r["err"][-3500:], None if leak else r["case"]))
    return stats, viol, None

def load_known(prop):
    known = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                known.append((m.group(2), m.group(3)))
    return known

def run_job(prop, job, tier, seed, workdir, jobno):
    exe = build(job)
    thorough = tier == "thorough"
    cases = job["thorough"] if thorough else job["quick"]
    shards = min(job.get("shards", NPROC), max(1, cases))
    tmo = job.get("timeout", 420) if not thorough else job.get("timeout_thorough", 3600)
    budget = job.get("budget", 240) if not thorough else job.get("budget_thorough", 2700)
    base = ["--prop", prop, "--seed", str(seed * 1000 + int(prop[1:])), "--cases", str(cases), "--thorough", "1" if thorough else "0", "--budget", str(budget), *job.get("args", [])]
    res = []
    def go(i):
        return run_shard(exe, base + ["--shard", str(i), "--shards", str(shards)], tmo, job.get("env"),
                         os.path.join(workdir, "prog-%s-%d-%d" % (job["name"], jobno, i)), job.get("hang_timeout", 60))
    with cf.ThreadPoolExecutor(job.get("parallel", NPROC)) as ex:
        res = list(ex.map(go, range(shards)))
    stats, viol, inc = [], [], []
    for r in res:
        s, v, x = judge(job, r)
        if x == "timeout":
            # Re-run only the case that was being executed; a hang must reproduce to count.
            if r["case"] is None:
                inc.append("%s: timeout before the first case" % job["name"])
                continue
            if DEADLOCK in r["err"]:
                v.append(("hang", "deadlock in case %d: all threads were waiting" % r["case"], r["case"]))
            hung = 0
            if viol and not v:
                continue # one shard has already shown a violation; don't spend time on this one
            for k in range(0 if v else 2):
                rr = run_shard(exe, base + ["--replay", str(r["case"])], job.get("hang_timeout", 60), job.get("env"),
                               os.path.join(workdir, "prog-%s-r%d" % (job["name"], k)))
                if rr["timeout"]:
                    hung += 1
                else:
                    _, v2, _ = judge(job, rr)
                    v += v2
                    break
            if hung == 2:
                v.append(("hang", "case %d does not terminate (killed after %d s, twice)" % (r["case"], job.get("hang_timeout", 60)), r["case"]))
            elif not v:
                inc.append("%s: shard exceeded %d s but its last case terminates" % (job["name"], tmo))
        elif x:
            inc.append(x)
        if s:
            stats.append(s)
        for k, m, c in v:
            viol.append(dict(job=job["name"], key=job["name"] + "/" + k, msg=m, case=c, exe_args=base, stderr=r["err"][-6000:]))
    if job.get("broken"):
        viol.append(dict(job=job["name"], key=job["name"] + "/" + job["broken"][0], msg=job["broken"][1], case=None, exe_args=base, stderr=""))
    return dict(job=job, stats=stats, viol=viol, inc=inc, shards=shards, cases=cases,
                lsan_off=any(r["lsan_broken"] for r in res))

def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    chk = CHECKS[prop]
    t0 = time.time()
    workdir = os.path.join(BUILD, "work", "%s-%d" % (prop, os.getpid()))
    shutil.rmtree(workdir, ignore_errors=True)
    os.makedirs(workdir)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    jobs = [j for j in chk["jobs"] if tier == "thorough" or not j.get("thorough_only")]
    results, inc = [], []
    try:
        # build everything first, in parallel
        broken = None
        with cf.ThreadPoolExecutor(4) as ex:
            futs = [(j, ex.submit(build, j)) for j in jobs]
            for j, f in futs:
                try:
                    f.result()
                except Unusable as e:
                    broken = broken or dict(job=j["name"], key=j["name"] + "/build", msg="uses that compiled before are rejected: " + str(e)[:3000], case=None, exe_args=[], stderr="")
        tb = time.time() - t0
        if broken:
            results.append(dict(job=jobs[0], stats=[], viol=[broken], inc=[], shards=0, cases=0, lsan_off=False))
        for n, j in enumerate([] if broken else jobs):
            results.append(run_job(prop, j, tier, seed, workdir, n))
            if results[-1]["viol"]:
                break
    finally:
        shutil.rmtree(workdir, ignore_errors=True)
    viol = [v for r in results for v in r["viol"]]
    inc = [x for r in results for x in r["inc"]]
    # coverage
    evals = sum(s["evaluations"] for r in results for s in r["stats"])
    distinct, dcount = set(), 0
    counters, samples = {}, []
    for r in results:
        for s in r["stats"]:
            distinct.update((r["job"].get("space", r["job"]["src"][0]), h) for h in s["distinct"])
            for k, v in s["counters"].items():
                counters[k] = counters.get(k, 0) + v
            for x in s["samples"]:
                if len(samples) < 6:
                    samples.append(x)
    known = load_known(prop)
    new, seen_known = [], []
    for v in viol:
        hit = [d for k, d in known if k == v["key"]]
        (seen_known if hit else new).append((v, hit[0] if hit else ""))
    ev = dict(property=prop, tier=tier, seed=seed, level=chk["level"],
              coverage=dict(evaluations=evals, distinct_nontrivial=len(distinct), rule=chk["rule"], samples=samples,
                            observed=counters,
                            runs=[dict(harness=r["job"]["name"], variant=r["job"]["variant"], cases=r["cases"], processes=r["shards"],
                                       sanitizers=VARIANTS[r["job"]["variant"]]["what"], leak_check_off=r["lsan_off"]) for r in results]),
              assumptions=chk.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(new))
    if inc:
        ev["coverage"]["inconclusive"] = inc
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for d in sorted(set(d for _, d in seen_known)):
        log("KNOWN-FINDING: property=%s %s" % (prop, d))
    if new:
        rd = os.path.join(ROOT, "replays")
        os.makedirs(rd, exist_ok=True)
        done = set()
        for v, _ in new:
            if v["key"] in done or len(done) >= 5:
                continue
            done.add(v["key"])
            path = os.path.join(rd, "%s-%s.json" % (prop, hashlib.sha256(v["key"].encode()).hexdigest()[:10]))
            with open(path, "w") as f:
                json.dump(dict(property=prop, job=v["job"], key=v["key"], case=v["case"], args=v["exe_args"], message=v["msg"], stderr=v["stderr"], how="python3 run.py --replay " + path), f, indent=1)
            log("  %s: %s" % (v["key"], v["msg"][:700].replace("\n", "\n    ")))
            log("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if inc:
        log("INCONCLUSIVE property=%s: %s" % (prop, "; ".join(inc)))
        return 2
    if len(distinct) < chk.get("min_distinct", 10):
        log("INCONCLUSIVE property=%s: only %d distinct situations observed" % (prop, len(distinct)))
        return 2
    for c in chk.get("must_observe", []):
        if not counters.get(c):
            log("INCONCLUSIVE property=%s: event '%s' never observed" % (prop, c))
            return 2
    log("OK property=%s tier=%s seed=%d evaluations=%d distinct=%d build=%.1fs wall=%.1fs" % (prop, tier, seed, evals, len(distinct), tb, time.time() - t0))
    return 0

def replay(path):
    d = json.load(open(path))
    job = [j for j in CHECKS[d["property"]]["jobs"] if j["name"] == d["job"]][0]
    exe = build(job)
    env = dict(os.environ); env.update(SAN_ENV); env.update(job.get("env") or {})
    args = d["args"] + (["--replay", str(d["case"])] if d["case"] is not None else [])
    return subprocess.call([exe, *args], env=env)

if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        log("CHECK-ERROR", e)
        sys.exit(2)

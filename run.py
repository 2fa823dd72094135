#!/usr/bin/env python3
"""Builds and runs the monitors. usage: run.py check ID | run.py replay FILE | run.py setup"""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARN = os.path.join(VERIF, "harness")
JOBS = os.cpu_count() or 4
sys.path.insert(0, VERIF)
sys.modules.setdefault("run", sys.modules[__name__])   # runners import this module by name
from checks import CHECKS  # noqa: E402

COMMON = ["-std=c++17", "-g", "-fno-omit-frame-pointer", "-I" + REPO + "/include", "-I" + HARN, "-w"]
SAN = {
    # address + undefined behaviour + checked containers
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr", "-D_GLIBCXX_DEBUG", "-D_GLIBCXX_ASSERTIONS"],
    # address + undefined only, for the speed of large volumes
    "asanfast": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr", "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-O1", "-fsanitize=thread", "-DVF_THREADS"],
}
COV = {"clang++": ["-fsanitize-coverage=trace-pc-guard"], "g++": ["-fsanitize-coverage=trace-pc"]}


class Inconclusive(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def repo_sources():
    return sorted(glob.glob(REPO + "/src/*.cpp"))


def repo_inputs():
    return sorted(glob.glob(REPO + "/src/*") + glob.glob(REPO + "/include/tinygettext/*"))


def compile_all(cc, san, harness_srcs, extra, link, libcov, out_dir):
    jobs = []
    objs = []
    for s in repo_sources():
        o = os.path.join(out_dir, "lib_" + os.path.basename(s) + ".o")
        jobs.append([cc, *COMMON, *SAN[san], *(COV[cc] if libcov else []), *extra, "-c", s, "-o", o])
        objs.append(o)
    for s in harness_srcs:
        o = os.path.join(out_dir, os.path.basename(s) + ".o")
        jobs.append([cc, *COMMON, *SAN[san], *extra, "-c", s, "-o", o])
        objs.append(o)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(lambda c: sh(c), jobs))
    for c, r in zip(jobs, res):
        if r.returncode:
            return "compile failed: " + " ".join(c) + "\n" + r.stdout[-4000:]
    exe = os.path.join(out_dir, "harness")
    r = sh([cc, *SAN[san], *objs, *link, "-o", exe])
    if r.returncode:
        return "link failed\n" + r.stdout[-4000:]
    return None


def build(name, san="asan", srcs=(), extra=(), link=(), libcov=True):
    """Builds /repo's sources plus the harness; returns the executable."""
    os.makedirs(BUILD, exist_ok=True)
    srcs = [os.path.join(HARN, s) for s in srcs]
    key = digest(repo_inputs() + glob.glob(HARN + "/*.hpp") + srcs, json.dumps([name, san, list(extra), list(link), libcov, SAN[san], REPO]))
    out = os.path.join(BUILD, "%s-%s-%s" % (name, san, key))
    exe = os.path.join(out, "harness")
    if os.path.exists(exe):
        return exe
    for old in glob.glob(os.path.join(BUILD, "%s-%s-*" % (name, san))):
        shutil.rmtree(old, ignore_errors=True)
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=BUILD)
    err = None
    for cc in ("clang++", "g++"):
        err = compile_all(cc, san, srcs, list(extra), list(link), libcov, tmp)
        if err is None:
            break
        sys.stderr.write("[%s] %s\n" % (cc, err))
    if err is not None:
        shutil.rmtree(tmp, ignore_errors=True)
        raise Inconclusive("the harness does not build against the current tree")
    for o in glob.glob(tmp + "/*.o"):
        os.unlink(o)
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


ENV = {
    "ASAN_OPTIONS": "exitcode=99:detect_leaks=0:abort_on_error=0:handle_abort=1:detect_stack_use_after_return=1:strict_string_checks=0:allocator_may_return_null=0:max_allocation_size_mb=3000:symbolize=1:print_legend=0",
    "UBSAN_OPTIONS": "exitcode=99:print_stacktrace=1:halt_on_error=1",
    "TSAN_OPTIONS": "exitcode=66:halt_on_error=1:second_deadlock_stack=1:history_size=4:suppressions=" + os.path.join(HARN, "tsan.supp"),
}


def harness_env(more=None):
    e = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "HOME": "/nonexistent", "LC_ALL": "C", **ENV}
    if more:
        e.update(more)
    return e


def crash_key(text):
    m = re.search(r"Assertion `(.{0,60})", text)
    if m:
        return "assert-" + re.sub(r"\W+", "-", m.group(1))
    m = re.search(r"SUMMARY: ThreadSanitizer: (.+?) (?:/\S*/)?([^/\s]+?):\d+", text)
    if m:
        return "tsan-%s-%s" % (m.group(1).replace(" ", "-"), m.group(2))
    m = re.search(r"SUMMARY: (\w+Sanitizer): (\S+)(?: (\S+))?(?: in (\S+))?", text)
    if m:
        return "crash-%s-%s" % (m.group(2), re.sub(r"^.*/", "", m.group(4) or (m.group(3) or "")))
    m = re.search(r"runtime error: (.{0,60})", text)
    if m:
        return "ub-" + re.sub(r"\W+", "-", m.group(1))
    m = re.search(r"Error: (attempt to [^\n]{0,60})", text)
    if m:
        return "debug-" + re.sub(r"\W+", "-", m.group(1))
    m = re.search(r"VF-TERMINATE (.{0,60})", text)
    if m:
        return "terminate-" + re.sub(r"\W+", "-", m.group(1))
    return "crash"


class Result:
    def __init__(self):
        self.evals = 0
        self.counters = {}
        self.hashes = set()
        self.samples = []
        self.violations = []      # (key, replay path)
        self.edges = None
        self.edges_total = 0
        self.steps = 0
        self.max_steps = 0
        self.processes = 0
        self.notes = []

    def merge(self, st, hashes):
        self.evals += st["evaluations"]
        for k, v in st["counters"].items():
            self.counters[k] = self.counters.get(k, 0) + v
        self.hashes |= hashes
        for s in st["samples"]:
            if len(self.samples) < 4:
                self.samples.append(s)
        self.violations += [(v["key"], v["replay"]) for v in st["violations"]]
        self.steps += st["library_steps"]
        self.max_steps = max(self.max_steps, st["max_steps_in_a_case"])
        self.edges_total = max(self.edges_total, st["edges_total"])
        e = st["edges"]
        if self.edges is None:
            self.edges = bytearray(len(e))
        if len(e) > len(self.edges):
            self.edges.extend(bytes(len(e) - len(self.edges)))
        for i, c in enumerate(e):
            if c == "1":
                self.edges[i] = 1


def run_worker(exe, args, env, timeout):
    """returns (returncode or None on timeout, output)"""
    p = subprocess.Popen([exe, *args], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd="/", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, _ = p.communicate()
        return None, out.decode("utf-8", "replace")


def run_shards(pid, exe, seed, tier, total, shards, extra=None, env=None, timeout=400, result=None, base=0, stop_after=24, hang_is_violation=False):
    """Runs cases base..base+total over `shards` processes."""
    res = result or Result()
    replay_dir = os.path.join(VERIF, "replays")
    os.makedirs(replay_dir, exist_ok=True)
    work = tempfile.mkdtemp(prefix="run-", dir=BUILD)
    env = harness_env(env)
    step = (total + shards - 1) // shards
    parts = [(base + a, base + min(a + step, total)) for a in range(0, total, step)]

    bad_ones = []

    def one(idx_part):
        i, (a, b) = idx_part
        if len(bad_ones) >= stop_after:
            return ("skipped",)
        r = one_worker(i, a, b)
        if r[0] == "crash" or (r[0] == "ok" and r[1]["violations"]):
            bad_ones.append(i)
        return r

    def one_worker(i, a, b):
        out = os.path.join(work, "out%d.json" % i)
        scratch = os.path.join(work, "scratch%d" % i)
        os.makedirs(scratch, exist_ok=True)
        args = ["--seed", str(seed), "--from", str(a), "--to", str(b), "--tier", tier, "--out", out, "--replay-dir", replay_dir, "--scratch", scratch]
        for k, v in (extra or {}).items():
            args += ["--x-" + k, str(v)]
        got = None
        for attempt in (0, 1):
            if os.path.exists(out):
                os.unlink(out)
            rc, text = run_worker(exe, args, env, timeout)
            got = (rc, text)
            m = re.search(r"VF-DEATH case=\d+ replay=(\S+)", text)
            if rc in (0, 1) and os.path.exists(out):
                st = json.load(open(out))
                h = set()
                if os.path.exists(out + ".hashes"):
                    raw = open(out + ".hashes", "rb").read()
                    h = {raw[j:j + 8] for j in range(0, len(raw), 8)}
                return ("ok", st, h)
            if rc is not None and m:
                path = m.group(1)
                key = crash_key(text)
                try:
                    d = json.load(open(path))
                    d["key"] = key
                    d["message"] += "\n" + text[-6000:]
                    json.dump(d, open(path, "w"), indent=1)
                except Exception:
                    pass
                return ("crash", key, path)
            if rc != 3 and os.path.exists(out + ".case") and (rc is not None or attempt and hang_is_violation):
                # no death callback in this build: the case is known from a file
                try:
                    case = int(open(out + ".case").read() or a)
                except ValueError:
                    case = a
                key = "hang" if rc is None else crash_key(text)
                path = os.path.join(replay_dir, "%s-s%d-c%d-%s.json" % (pid, seed, case, re.sub(r"[^A-Za-z0-9-]", "_", key)[:80]))
                json.dump({"property": pid, "seed": seed, "case": case, "tier": tier, "extra": extra or {}, "key": key,
                           "message": "process ended with %s\n%s" % (rc, text[-6000:]), "description": "cases %d to %d of one process" % (a, case)}, open(path, "w"), indent=1)
                return ("crash", key, path)
        return ("bad", got[0], got[1][-3000:])

    try:
        with cf.ThreadPoolExecutor(JOBS) as ex:
            outs = list(ex.map(one, enumerate(parts)))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    for o in outs:
        res.processes += 1
        if o[0] == "ok":
            res.merge(o[1], o[2])
        elif o[0] == "skipped":
            res.processes -= 1
        elif o[0] == "crash":
            res.evals += 1
            res.violations.append((o[1], o[2]))
        else:
            res.notes.append("worker gave no verdict (exit %s): %s" % (o[1], o[2]))
    return res


def load_known():
    known = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m:
                known.append(m.groups())
    return known


def finish(pid, chk, res, seed, tier, t0, extra_cov=None):
    known = load_known()
    new, seen_known = [], []
    dedup = {}
    for k, path in res.violations:
        dedup.setdefault(k, path)
    for k, path in dedup.items():
        hit = [x for x in known if x[0] == pid and x[1] == k]
        if hit:
            seen_known.append(hit[0])
        else:
            new.append((k, path))
    cov = {
        "evaluations": res.evals,
        "distinct_nontrivial": len(res.hashes),
        "rule": chk["rule"],
        "samples": [s[:900] for s in res.samples[:4]],
        "events": dict(sorted(res.counters.items())),
        "worker_processes": res.processes,
    }
    if res.edges is not None and res.edges_total:
        cov["library_edges_reached"] = int(sum(res.edges))
        cov["library_edges_instrumented"] = res.edges_total
        cov["library_edges_executed"] = res.steps
        cov["most_edges_in_one_case"] = res.max_steps
    if extra_cov:
        cov.update(extra_cov)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": chk["level"], "coverage": cov,
          "assumptions": chk.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    if res.notes:
        ev["coverage"]["inconclusive"] = [n[:500] for n in res.notes[:5]]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
        f.write("\n")
    for x in known:
        if x[0] == pid:
            print("KNOWN-FINDING: property=%s %s" % (pid, x[2]))
    for k, path in new:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        try:
            d = json.load(open(path))
            print("  key %s: %s" % (k, d.get("message", "")[:1500]))
        except Exception:
            print("  key " + k)
    if new:
        return 1
    if res.notes:
        print("INCONCLUSIVE property=%s: %s" % (pid, res.notes[0][:2000]))
        return 2
    floor = chk.get("min_distinct", 2)
    if len(res.hashes) < floor:
        print("INCONCLUSIVE property=%s: only %d distinct non-trivial cases observed" % (pid, len(res.hashes)))
        return 2
    for c in chk.get("must_observe", []):
        if not res.counters.get(c):
            print("INCONCLUSIVE property=%s: nothing observed for %s" % (pid, c))
            return 2
    print("OK property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs" % (pid, tier, seed, res.evals, len(res.hashes), time.time() - t0))
    return 0


def standard(pid, chk, seed, tier):
    exe = build(chk.get("binary", pid.lower()), chk.get("san", "asan"), chk["srcs"], chk.get("cflags", ()), chk.get("link", ()), chk.get("libcov", True))
    total = chk[tier]
    return run_shards(pid, exe, seed, tier, total, chk.get("shards", JOBS * 2), env=chk.get("env"), timeout=chk.get("timeout", 400 if tier == "quick" else 7200),
                      stop_after=chk.get("stop_after", 24), hang_is_violation=chk.get("hang_is_violation", False))


def do_check(pid):
    t0 = time.time()
    chk = CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 3:
        tier = sys.argv[3]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        extra = None
        runner = chk.get("runner")
        if runner:
            import runners
            r = getattr(runners, runner)(pid, chk, seed, tier)
            res, extra = r if isinstance(r, tuple) else (r, None)
        else:
            res = standard(pid, chk, seed, tier)
    except Inconclusive as e:
        print("INCONCLUSIVE property=%s: %s" % (pid, e))
        return 2
    return finish(pid, chk, res, seed, tier, t0, extra)


def do_replay(path):
    d = json.load(open(path))
    chk = CHECKS[d["property"]]
    if chk.get("runner"):
        import runners
        r = getattr(runners, chk["runner"] + "_replay", None)
        if r:
            return r(d["property"], chk, d)
    exe = build(chk.get("binary", d["property"].lower()), chk.get("san", "asan"), chk["srcs"], chk.get("cflags", ()), chk.get("link", ()), chk.get("libcov", True))
    tmp = tempfile.mkdtemp(prefix="replay-", dir=BUILD)
    args = [exe, "--seed", str(d["seed"]), "--tier", d["tier"], "--replay-dir", tmp, "--scratch", tmp]
    if d.get("input"):
        args += ["--input", d["input"]]
    else:
        for k, v in d.get("extra", {}).items():
            args += ["--x-" + k, v]
    args += ["--case", str(d["case"])]
    r = subprocess.run(args, env=harness_env(chk.get("env")), cwd="/")
    shutil.rmtree(tmp, ignore_errors=True)
    return r.returncode


if __name__ == "__main__":
    if len(sys.argv) < 2:
        sys.exit(__doc__)
    if sys.argv[1] == "check":
        try:
            code = do_check(sys.argv[2])
        except Exception as e:                 # a failure of the machinery is not a verdict
            import traceback
            traceback.print_exc()
            print("INCONCLUSIVE property=%s: %s" % (sys.argv[2], e))
            code = 2
        sys.exit(code)
    if sys.argv[1] == "replay":
        sys.exit(do_replay(sys.argv[2]))
    if sys.argv[1] == "setup":
        os.makedirs(BUILD, exist_ok=True)
        for t in ("clang++", "g++", "localedef"):
            if not shutil.which(t):
                sys.exit("missing tool " + t)
        print("ready")
        sys.exit(0)
    sys.exit(__doc__)

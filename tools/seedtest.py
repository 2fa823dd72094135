#!/usr/bin/env python3
"""Tries planted bugs: seedtest.py [-j N] [--checks C01,C02|own|all] ID...   (development tool, no check uses it)

For each /verif/seeded/ID: copies /repo to a scratch directory, confirms that demo.sh passes there, applies the
patch, builds, runs the four tests, confirms that demo.sh fails, and runs the checks from a scratch copy of /verif."""
import argparse, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd=None, env=None, timeout=900):
    try:
        r = subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return 124, str(e)


def tests(repo):
    rc, out = sh("cmake -S /opt/vp/cmake -B %s/_build -DREPO=%s -DCMAKE_BUILD_TYPE=Debug -G Ninja >/dev/null && ninja -C %s/_build" % (repo, repo, repo))
    if rc:
        return "build failed: " + out[-600:]
    for line in open(repo + "/test/test.sh"):
        if line.startswith("./"):
            rc, out = sh(repo + "/_build/" + line[2:].strip(), cwd=repo + "/test")
            if rc:
                return "test failed: " + line
    return ""


def one(sid, checks):
    d = os.path.join(VERIF, "seeded", sid)
    prop = json.load(open(d + "/meta.json"))["property"]
    tmp = tempfile.mkdtemp(prefix="seedtest-")
    res = [sid, prop]
    try:
        repo = tmp + "/repo"
        shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns("_build", ".git"))
        demo = tmp + "/demo"
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "*.json"))
        if True:
            rc, out = sh([demo + "/demo.sh"], cwd=repo)
            if rc:
                return res + ["DEMO FAILS ON THE CLEAN TREE rc=%d %s" % (rc, out[-500:])]
        rc, out = sh("git init -q . && git apply %s/patch.diff" % d, cwd=repo)
        if rc:
            return res + ["PATCH " + out[-300:]]
        t = tests(repo)
        if t:
            return res + ["TESTS " + t]
        rc, out = sh([demo + "/demo.sh"], cwd=repo)
        if rc == 0 or rc == 3:
            return res + ["DEMO does not notice, rc=%d %s" % (rc, out[-400:])]
        res.append("demo ok(%d)" % rc)
        v = tmp + "/verif"
        shutil.copytree(VERIF, v, ignore=shutil.ignore_patterns("build", ".git", "seeded", "replays", "evidence", "__pycache__"))
        env = dict(os.environ, VF_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick")
        want = [prop] if checks == ["own"] else [] if checks == ["none"] else checks
        if checks == ["all"]:
            want = [c["property"] for c in json.load(open(VERIF + "/MANIFEST.json"))["checks"]]
        for c in want:
            rc, out = sh(["python3", v + "/run.py", "check", c], cwd=v, env=env)
            line = [l for l in out.splitlines() if l.startswith("VIOLATION property=" + c)]
            res.append("%s=%s" % (c, "CAUGHT" if rc == 1 and line else "missed(rc %d) %s" % (rc, out[-200:] if rc not in (0,) else "")))
            with open("/tmp/seedlogs/%s-%s.txt" % (sid, c), "w") as f:
                f.write(out)
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


ap = argparse.ArgumentParser()
ap.add_argument("-j", type=int, default=3)
ap.add_argument("--checks", default="own")
ap.add_argument("ids", nargs="*")
a = ap.parse_args()
ids = a.ids or sorted(os.listdir(os.path.join(VERIF, "seeded")))
with ThreadPoolExecutor(a.j) as ex:
    for r in ex.map(lambda i: one(i, a.checks.split(",")), ids):
        print(" | ".join(r), flush=True)

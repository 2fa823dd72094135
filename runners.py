"""Runners of checks that need more than one harness run."""
import concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys, tempfile, time
import run as R


def fuzz_then_replay(pid, chk, seed, tier):
    """C01: generated hostile inputs in the step-counted harness, then a libFuzzer
    campaign whose corpus and artifacts are judged by the same harness."""
    exe = R.build("c01", "asan", chk["srcs"], (), chk["link"])
    res = R.run_shards(pid, exe, seed, tier, chk[tier], R.JOBS * 2, timeout=400 if tier == "quick" else 7200)
    cov = {}
    work = tempfile.mkdtemp(prefix="fuzz-", dir=R.BUILD)
    try:
        fuzz = R.build("c01fuzz", "asanfast", ["fuzz_c01.cpp", "rt_min.cpp"], ("-fsanitize=fuzzer-no-link",), ("-fsanitize=fuzzer",), libcov=False)
        seeder = R.build("c01seeds", "asanfast", ["seeds_c01.cpp", "rt_min.cpp"], libcov=False)
        toks = os.path.join(work, "dict.txt")
        with open(toks, "w") as f:
            for t in ["msgid", "msgid_plural", "msgstr", "msgstr[0]", "msgstr[1]", "msgctxt", "#, fuzzy", "#~ ", "Plural-Forms: nplurals=2; plural=(n != 1);\\\\n",
                      "Content-Type: text/plain; charset=UTF-8\\\\n", "Content-Type: text/plain; charset=BIG5\\\\n", "charset=UTF-16", "charset=ISO-2022-JP", "\\\\\\\"", "\\\"\\x0a\\\"", "\\xa5\\\\", "\\x0a\\x0a"]:
                f.write('"%s"\n' % t)
        runs = chk["fuzz_runs"][tier]

        def one(i):
            d = os.path.join(work, "corpus%d" % i)
            art = os.path.join(work, "art%d-" % i)
            os.makedirs(d)
            subprocess.run([seeder, d, str(seed * 100 + i), "150"], env=R.harness_env(), check=True)
            rc, text = R.run_worker(fuzz, [d, "-runs=%d" % runs, "-seed=%d" % (seed * 100 + i + 1), "-max_len=2000", "-dict=" + toks, "-artifact_prefix=" + art,
                                           "-timeout=30", "-rss_limit_mb=3000", "-print_final_stats=1", "-len_control=20"], R.harness_env(), 300 if tier == "quick" else 6000)
            return rc, text, d, glob.glob(art + "*")
        with cf.ThreadPoolExecutor(R.JOBS) as ex:
            outs = list(ex.map(one, range(R.JOBS)))
        execs = covs = feats = corpus = 0
        to_judge = []
        for rc, text, d, arts in outs:
            m = re.findall(r"number_of_executed_units:\s*(\d+)", text)
            execs += int(m[-1]) if m else 0
            m = re.findall(r"cov: (\d+) ft: (\d+) corp: (\d+)", text)
            if m:
                covs, feats, corpus = max(covs, int(m[-1][0])), max(feats, int(m[-1][1])), corpus + int(m[-1][2])
            if arts:
                to_judge.append((text, arts))
            elif rc != 0:
                res.notes.append("fuzzer ended with %s: %s" % (rc, text[-1500:]))
        cov["fuzzer"] = {"processes": len(outs), "executions": execs, "edges": covs, "features": feats, "corpus": corpus}
        for text, arts in to_judge:
            for a in arts:
                keep = os.path.join(R.VERIF, "replays", "C01-fuzz-%s" % os.path.basename(a))
                shutil.copy(a, keep)
                out = os.path.join(work, "judge.json")
                rc, t2 = R.run_worker(exe, ["--seed", str(seed), "--tier", tier, "--out", out, "--replay-dir", os.path.join(R.VERIF, "replays"), "--input", keep, "--from", "0", "--to", "1"], R.harness_env(), 300)
                if rc == 1 and os.path.exists(out):
                    for v in json.load(open(out))["violations"]:
                        res.violations.append((v["key"], tag(v["replay"], keep, "")))
                    continue
                m = re.search(r"VF-DEATH case=\d+ replay=(\S+)", t2)
                if rc not in (0, 1) and m:
                    res.violations.append((R.crash_key(t2), tag(m.group(1), keep, t2)))
                elif "SUMMARY: AddressSanitizer" in text or "runtime error" in text or "Assertion" in text or "deadly signal" in text:
                    p = os.path.join(R.VERIF, "replays", "C01-fuzz.json")
                    json.dump({"property": "C01", "seed": seed, "case": 0, "tier": tier, "input": keep, "message": text[-6000:]}, open(p, "w"))
                    res.violations.append((R.crash_key(text), p))
                else:
                    res.notes.append("fuzzer artifact %s was not confirmed: %s" % (a, text[-800:]))
        # the corpus found by the fuzzer, in the step-counted harness with checked containers
        files = [f for _, _, d, _ in outs for f in sorted(glob.glob(d + "/*"))]
        listing = os.path.join(work, "list.txt")
        open(listing, "w").write("\n".join(files))
        if files:
            n = len(files)
            before = len(res.violations)
            res = R.run_shards(pid, exe, seed, tier, n, R.JOBS, extra={"list": listing}, result=res)
            for _, path in res.violations[before:]:
                case = json.load(open(path))["case"]
                keep = os.path.join(R.VERIF, "replays", "C01-corpus-%d-%s" % (seed, os.path.basename(files[case % n])[:16]))
                shutil.copy(files[case % n], keep)
                tag(path, keep, "")
            cov["fuzzer"]["corpus_inputs_judged_with_step_budget"] = n
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return res, cov


def tag(path, inp, text):
    try:
        d = json.load(open(path))
        d["input"] = inp
        d["message"] = d.get("message", "") + text[-6000:]
        json.dump(d, open(path, "w"), indent=1)
    except Exception:
        pass
    return path


LOCALES = ["tr_TR.UTF-8", "tr_TR.ISO-8859-9", "az_AZ.UTF-8", "de_DE.ISO-8859-1", "ru_RU.KOI8-R", "ja_JP.EUC-JP", "zh_TW.BIG5", "en_IN.UTF-8", "lt_LT.ISO-8859-13", "et_EE.UTF-8", "cs_CZ.ISO-8859-2"]


def build_locales():
    """Compiles the locales below BUILD and returns (directory, names)."""
    d = os.path.join(R.BUILD, "locales")
    os.makedirs(d, exist_ok=True)

    def one(name):
        dst = os.path.join(d, name)
        if os.path.exists(os.path.join(dst, "LC_CTYPE")):
            return name
        tmp = tempfile.mkdtemp(prefix="loc-", dir=R.BUILD)
        lang, cs = name.split(".", 1)
        out = R.sh(["localedef", "--no-archive", "--force", "-i", lang, "-f", cs, os.path.join(tmp, name)])
        ok = os.path.exists(os.path.join(tmp, name, "LC_CTYPE"))
        if ok:
            try:
                os.rename(os.path.join(tmp, name), dst)
            except OSError:
                pass
        else:
            sys.stderr.write("localedef %s: %s\n" % (name, out.stdout[-500:]))
        shutil.rmtree(tmp, ignore_errors=True)
        return name if ok else None
    with cf.ThreadPoolExecutor(R.JOBS) as ex:
        names = [n for n in ex.map(one, LOCALES) if n]
    if "tr_TR.ISO-8859-9" not in names or "tr_TR.UTF-8" not in names:
        raise R.Inconclusive("the Turkish locales could not be compiled")
    return d, names


def with_locales(pid, chk, seed, tier):
    exe = R.build(pid.lower(), "asan", chk["srcs"], (), chk["link"])
    d, names = build_locales()
    res = R.run_shards(pid, exe, seed, tier, chk[tier], R.JOBS * 2, extra={"locales": ",".join(names)}, env={"LOCPATH": d}, timeout=400 if tier == "quick" else 7200)
    return res, {"locales": names}


def with_locales_replay(pid, chk, d):
    exe = R.build(pid.lower(), "asan", chk["srcs"], (), chk["link"])
    loc, _ = build_locales()
    tmp = tempfile.mkdtemp(prefix="replay-", dir=R.BUILD)
    args = [exe, "--seed", str(d["seed"]), "--tier", d["tier"], "--replay-dir", tmp, "--scratch", tmp]
    for k, v in d.get("extra", {}).items():
        args += ["--x-" + k, v]
    r = subprocess.run(args + ["--case", str(d["case"])], env=R.harness_env({"LOCPATH": loc}), cwd="/")
    shutil.rmtree(tmp, ignore_errors=True)
    return r.returncode

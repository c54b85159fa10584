"""C27: sharing between threads.

The same monitor (harness/src/props/c27.rs) runs twice: compiled for ThreadSanitizer (Rust, its standard library and the C curve
library instrumented), which reports every pair of unordered conflicting accesses it sees, and compiled normally at full speed with
more threads than cores, where only the answers are compared with those of one thread alone."""
import glob, os, re, shutil, signal, subprocess, time
import check

HOST = "x86_64-unknown-linux-gnu"


def build(env, run, san):
    e = dict(env, CARGO_TARGET_DIR=os.path.join(check.TARGET, san), CC="clang", RUSTUP_TOOLCHAIN="nightly-" + HOST)
    flag = {"tsan": "thread", "asan": "address"}[san]
    e["RUSTFLAGS"] = (env.get("RUSTFLAGS", "") + " -Zsanitizer=" + flag).strip()
    e["CFLAGS_" + HOST.replace("-", "_")] = "-fsanitize=%s -g -fno-omit-frame-pointer" % flag
    if san == "asan":  # undefined behaviour in the C library ends the process with SIGILL
        e["CFLAGS_" + HOST.replace("-", "_")] += " -fsanitize=undefined -fsanitize-trap=undefined"
    e["CARGO_PROFILE_DEV_DEBUG"] = "1"
    log = os.path.join(run, "build-%s.log" % san)
    rc = check.sh(["cargo", "build", "--offline", "-Zbuild-std", "--target", HOST], os.path.join(check.VERIF, "harness"), e, log, 800)
    if rc != 0:
        errs = [l for l in open(log, errors="replace").read().split("\n") if l.startswith("error")][:8]
        raise check.NoVerdict("the monitors do not build with -Zsanitizer=%s (rc %s, see %s): %s" % (flag, rc, log, errs))
    dst = os.path.join(run, "harness-" + san)
    shutil.copy2(os.path.join(check.TARGET, san, HOST, "debug", "harness"), dst)
    return dst


def reports(pattern):
    """sanitizer reports, one per distinct place"""
    out = {}
    n = 0
    for f in sorted(glob.glob(pattern)):
        for r in re.split(r"(?m)^={10,}$", open(f, errors="replace").read()):
            m = re.search(r"(?m)^.*(?:WARNING: ThreadSanitizer|ERROR: AddressSanitizer): ([^\n]*)", r)
            if not m:
                continue
            n += 1
            frames = re.findall(r"#\d+ (.*?) (/[^\s]+|<null>)", r)
            where = [("%s %s" % (re.sub(r"^0x[0-9a-f]+ (in )?", "", a), b.split("/repo/")[-1])).strip() for a, b in frames]
            own = [w for w in where if "bitcoin" in w or "secp" in w][:4] or where[:4]
            key = (re.sub(r"0x[0-9a-f]+|\(pid=\d+\)|\d{4,}", "", m.group(1))[:80], tuple(own[:2]))
            out.setdefault(key, "%s at %s" % (m.group(1)[:160], " <- ".join(own)[:500]))
    return n, out


def run_sanitized(binary, san, pid, out, tier, seed, env, secs, args=(), only=None, shards=None):
    """returns (results, violations, inconclusive, number of reports)"""
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    opts = "halt_on_error=0:exitcode=0:report_signal_unsafe=0:history_size=3:log_path=" if san == "tsan" else \
           "detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=66:allocator_may_return_null=1:detect_stack_use_after_return=0:log_path="
    e = dict(env, VERIF_SLOW="1", **{san.upper() + "_OPTIONS": opts + os.path.join(out, "report")})
    n = 1 if only else (shards or check.SHARDS)
    procs = []
    for i in range(n):
        cmd = [binary, pid, "--out", out, "--seed", str(seed), "--tier", tier] + list(args)
        cmd += ["--only", only] if only else ["--shard", "%d/%d" % (i, n)]
        err = open(os.path.join(out, "stderr-%d" % i), "wb")
        procs.append(subprocess.Popen(cmd, cwd=out, env=e, stdout=subprocess.DEVNULL, stderr=err, stdin=subprocess.DEVNULL, start_new_session=True))
    end = time.time() + secs
    results, violations, inconclusive = [], [], []
    import json
    for i, p in enumerate(procs):
        try:
            rc = p.wait(max(0.1, end - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = None
        try:
            case = open(os.path.join(out, "journal-%d" % i), "rb").read(64).decode(errors="replace").strip()
        except OSError:
            case = ""
        rf = os.path.join(out, "result-%d.json" % i)
        if rc in (0, 1) and os.path.exists(rf):
            r = json.load(open(rf))
            results.append(r)
            violations += [dict(v, backend=san) for v in r["violations"]]
        else:
            tail = open(os.path.join(out, "stderr-%d" % i), errors="replace").read()[-300:].strip()
            how = "exceeded the watchdog" if rc is None else "ended with status %s" % rc
            found = glob.glob(os.path.join(out, "report.*"))
            if rc is not None and (found or rc < 0) and case:
                violations.append({"case": case, "input": "", "backend": san, "detail": "the process %s in this case: %s" % (how, tail)})
            else:
                inconclusive.append("%s shard %d %s (case %s): %s" % (san, i, how, case, tail))
    k, reps = reports(os.path.join(out, "report.*"))
    for (kind, _), text in sorted(reps.items())[:10]:
        violations.append({"case": san + " report", "input": "", "backend": san, "detail": text})
    return results, violations, inconclusive, k


def run(tier, seed, env, rundir, only=None):
    pid = "C27"
    quick = tier == "quick"
    extra = {}
    binary = check.build("c", env, rundir)
    out = os.path.join(rundir, "c")
    results, violations, inconclusive = check.run_shards(binary, pid, out, tier, seed, env, 200 if quick else 3000, only,
                                                         extra=["--phase-secs", "15" if quick else "400"])
    m = check.merge(results, out)
    tb = build(env, rundir, "tsan")
    tout = os.path.join(rundir, "tsan")
    r2, v2, i2, k = run_sanitized(tb, "tsan", pid, tout, tier, seed, env, 450 if quick else 5000, ["--phase-secs", "30" if quick else "900"], only)
    m2 = check.merge(r2, tout)
    extra["ThreadSanitizer"] = {"reports": k, "rounds and turns": m2["evaluations"], "observations": m2["events"], "phases": m2["phases"],
                                "overlaps of one job on one object": sum(n for c, n in m2["classes"].items() if c.startswith("overlap of one")),
                                "other overlaps": sum(n for c, n in m2["classes"].items() if c.startswith("overlap: ")),
                                "distinct pairs of jobs that overlapped": sum(1 for c in m2["classes"] if c.startswith("overlap: "))}
    c = m["classes"]
    extra["full speed"] = {"overlaps of one job on one object": sum(n for x, n in c.items() if x.startswith("overlap of one")),
                           "other overlaps": sum(n for x, n in c.items() if x.startswith("overlap: ")),
                           "distinct pairs of jobs that overlapped": sum(1 for x in c if x.startswith("overlap: "))}
    m["classes"] = {a: b for a, b in c.items() if not a.startswith("overlap: ")}
    m["evaluations"] += m2["evaluations"]
    m["events"] += m2["events"]
    m["distinct_nontrivial"] += m2["distinct_nontrivial"]
    m["extra"] = extra
    if not only and not violations and not v2 and (not r2 or extra["ThreadSanitizer"]["overlaps of one job on one object"] == 0):
        i2.append("no overlapping jobs were observed under ThreadSanitizer")
    return m, violations + v2, inconclusive + i2

#!/usr/bin/env python3
"""Decides one property: builds the monitors against /repo's working tree, runs them in parallel shards under
resource limits and a watchdog, and turns what they recorded into a verdict and an evidence file.

  python3 check.py C01                 quick tier (VERIF_TIER / VERIF_SEED are honoured)
  python3 check.py C01 --tier thorough
  python3 check.py C01 --only 'PHASE#I' [--seed N]   replays one case
  python3 check.py setup               builds everything and runs the oracles' self tests

exit 0: held on everything explored; 1: VIOLATION line(s) printed; 2: no verdict (build error, watchdog, harness error)
"""
import json, os, resource, shutil, signal, subprocess, sys, time, threading

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")
SCRATCH = os.path.join(VERIF, "scratch")
EVID = os.path.join(VERIF, "evidence")
SHARDS = 8
# how many times the monitors' quick plan is run in the quick tier (phases stay limited to 20 s each)
SCALE = {"C03": 8, "C04": 8, "C05": 8, "C12": 6, "C13": 8, "C14": 3, "C15": 3, "C17": 8, "C21": 4, "C25": 3, "C02": 3,
         "C06": 2, "C07": 2, "C08": 2, "C09": 2, "C10": 2, "C18": 2, "C23": 2, "C24": 2, "C22": 2, "C16": 2, "C01": 2, "C11": 2}
# properties with a clause about memory: their monitors also run compiled for AddressSanitizer (all of them do in the thorough tier)
SANITIZED = ("C02", "C11", "C16")
MEM = 6 << 30
CASE_CPU = 90  # seconds of CPU one case may take when re-run alone (they take milliseconds)


def load_env():
    """the repository's own build environment"""
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh && env -0"], stdout=subprocess.PIPE, check=True).stdout
    env = dict(x.split("=", 1) for x in out.decode().split("\0") if "=" in x)
    env.pop("CARGO_INCREMENTAL", None)
    env["RUST_BACKTRACE"] = "0"
    # long functions nest thousands of scopes, whose debug information overflows rustc's stack
    env["CARGO_PROFILE_DEV_DEBUG"] = "0"
    return env


class NoVerdict(Exception):
    pass


def sh(cmd, cwd, env, log, timeout):
    with open(log, "wb") as f:
        p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)
        try:
            return p.wait(timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            return None


def build(backend, env, run):
    env = dict(env, CARGO_TARGET_DIR=os.path.join(TARGET, backend))
    cmd = ["cargo", "build", "--offline", "--locked"]
    if backend == "rust":
        cmd += ["--no-default-features", "--features", "rust_ecc"]
    log = os.path.join(run, "build-%s.log" % backend)
    rc = sh(cmd, os.path.join(VERIF, "harness"), env, log, 600)
    if rc != 0:
        errs = [l for l in open(log, errors="replace").read().split("\n") if l.startswith("error")][:8]
        raise NoVerdict("the monitors do not build against this tree (rc %s, see %s): %s" % (rc, log, errs))
    # a copy of its own, so that a concurrent build of another check cannot replace a running binary
    dst = os.path.join(run, "harness-" + backend)
    shutil.copy2(os.path.join(TARGET, backend, "debug", "harness"), dst)
    return dst


def limits(cpu=None):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        os.setsid()
    return f


def run_shards(binary, pid, out, tier, seed, env, watchdog, only=None, backend="c", extra=()):
    """returns (results, violations, inconclusive)"""
    os.makedirs(out, exist_ok=True)
    n = 1 if only else SHARDS
    scale = SCALE.get(pid, 1) if tier == "quick" else 1
    procs = []
    base = [binary, pid, "--out", out, "--seed", str(seed), "--tier", tier, "--scale", str(scale)] + list(extra)
    for i in range(n):
        cmd = base + (["--only", only] if only else ["--shard", "%d/%d" % (i, n)])
        err = open(os.path.join(out, "stderr-%d" % i), "wb")
        procs.append(subprocess.Popen(cmd, cwd=out, env=env, stdout=subprocess.DEVNULL, stderr=err, stdin=subprocess.DEVNULL, preexec_fn=limits()))
    end = time.time() + watchdog
    results, violations, inconclusive = [], [], []
    for i, p in enumerate(procs):
        try:
            rc = p.wait(max(0.1, end - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = None
        res = os.path.join(out, "result-%d.json" % i)
        if rc in (0, 1) and os.path.exists(res):
            r = json.load(open(res))
            results.append(r)
            violations += [dict(v, backend=backend) for v in r["violations"]]
            if (rc == 1) != bool(r["violations"]):
                inconclusive.append("shard %d: exit code and result disagree" % i)
            continue
        # the monitor died or hangs: the journal names the case it was in
        try:
            case = open(os.path.join(out, "journal-%d" % i), "rb").read(64).decode(errors="replace").strip()
        except OSError:
            case = ""
        how = "exceeded the watchdog" if rc is None else "ended with status %s" % rc
        tail = open(os.path.join(out, "stderr-%d" % i), errors="replace").read()[-400:].strip()
        if not case or "#" not in case or only:
            inconclusive.append("shard %d %s outside any case: %s" % (i, how, tail))
            continue
        rr = os.path.join(out, "rerun-%d" % i)
        os.makedirs(rr, exist_ok=True)
        cmd = base[:2] + ["--out", rr] + base[4:] + ["--only", case]
        errp = os.path.join(rr, "stderr")
        with open(errp, "wb") as err:
            q = subprocess.Popen(cmd, cwd=rr, env=env, stdout=subprocess.DEVNULL, stderr=err, stdin=subprocess.DEVNULL, preexec_fn=limits(CASE_CPU))
            try:
                rc2 = q.wait(CASE_CPU * 4)
            except subprocess.TimeoutExpired:
                os.killpg(q.pid, signal.SIGKILL)
                q.wait()
                rc2 = None
        inp = ""
        try:
            inp = open(os.path.join(rr, "journal-0"), "rb").read()[64:].decode(errors="replace").strip("\0")
        except OSError:
            pass
        tail = open(errp, errors="replace").read()[-400:].strip()
        if rc2 is None:
            inconclusive.append("case %s hangs without using CPU" % case)
        elif rc2 in (-signal.SIGXCPU, -signal.SIGKILL) and rc is None:
            violations.append({"case": case, "input": inp, "backend": backend,
                               "detail": "does not finish: one case used over %d s of CPU (on the unchanged tree each takes milliseconds)" % CASE_CPU})
        elif rc2 < 0:
            violations.append({"case": case, "input": inp, "backend": backend,
                               "detail": "the process died with signal %d on this case (abort, memory limit %d GB or stack overflow): %s" % (-rc2, MEM >> 30, tail)})
        elif rc2 == 1:
            r = json.load(open(os.path.join(rr, "result-0.json")))
            violations += [dict(v, backend=backend) for v in r["violations"]]
        else:
            inconclusive.append("shard %d %s in case %s, but that case passes alone (rc %s)" % (i, how, case, rc2))
    return results, violations, inconclusive


def merge(results, out):
    m = {"evaluations": 0, "events": 0, "trivial": 0, "classes": {}, "known": {}, "samples": [], "phases": {}, "rule": "", "notes": []}
    for r in results:
        m["evaluations"] += r["evals"]
        m["events"] += r["events"]
        m["trivial"] += r["trivial"]
        m["rule"] = r["rule"]
        for k in ("classes", "known"):
            for a, b in r[k].items():
                m[k][a] = m[k].get(a, 0) + b
        for s in r["samples"]:
            if len(m["samples"]) < 12:
                m["samples"].append(s)
        for p in r["phases"]:
            q = m["phases"].setdefault(p["phase"], {"planned": p["planned"], "run": 0, "secs": 0})
            q["run"] += p["run"]
            q["secs"] = max(q["secs"], p["secs"])
        for x in r["notes"]:
            if x not in m["notes"]:
                m["notes"].append(x)
    import array
    hashes = array.array("Q")
    for i in range(len(results)):
        try:
            b = open(os.path.join(out, "distinct-%d" % i), "rb").read()
            hashes.frombytes(b)
        except OSError:
            pass
    m["distinct_nontrivial"] = len(set(hashes))
    return m


def known_findings():
    known = {}
    p = os.path.join(VERIF, "known-findings.txt")
    for l in open(p):
        l = l.strip()
        if l.startswith("known: property="):
            pid, what = l[len("known: property="):].split(" ", 1)
            known.setdefault(pid, set()).add(what.strip())
    return known


def compare_logs(dirs):
    """offline comparison of what the two ECC back ends answered on the same cases"""
    logs = []
    for d in dirs:
        m = {}
        for i in range(SHARDS):
            p = os.path.join(d, "ecc-log-%d" % i)
            if os.path.exists(p):
                for l in open(p, errors="replace"):
                    k, _, v = l.rstrip("\n").partition("\t")
                    m.setdefault(k, []).append(v)
        logs.append(m)
    common = sorted(set(logs[0]) & set(logs[1]))
    bad = [k for k in common if logs[0][k] != logs[1][k]]
    viol = []
    for k in bad[:3]:
        a, b = next((x, y) for x, y in zip(logs[0][k] + [""], logs[1][k] + [""]) if x != y)
        viol.append({"case": k, "input": "", "backend": "c+rust", "detail": "the back ends answer differently: C %s / Rust %s" % (a[:400], b[:400])})
    return len(common), sum(len(logs[0][k]) for k in common), viol


def main():
    args = sys.argv[1:]
    pid = args[0]
    opt = lambda k, d: args[args.index(k) + 1] if k in args else d
    tier = opt("--tier", os.environ.get("VERIF_TIER") or "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(opt("--seed", os.environ.get("VERIF_SEED") or "1"))
    only = opt("--only", None)
    env = load_env()
    os.makedirs(EVID, exist_ok=True)
    run = os.path.join(SCRATCH, "%s-%d" % (pid, os.getpid()))
    shutil.rmtree(run, ignore_errors=True)
    os.makedirs(run)
    t0 = time.time()
    watchdog = 420 if tier == "quick" else 6000
    try:
        if pid == "setup":
            b = build("c", env, run)
            build("rust", env, run)
            rc = subprocess.run([b, "selftest"], env=env).returncode
            print("setup: monitors built, oracle self tests exit", rc)
            return 0 if rc == 0 else 2
        extra = {}
        if pid == "C23" and (not only or only.startswith("derive#")):
            import derive_check
            extra["generated structures"], dviol, dinc, dclasses, ddist = derive_check.run(tier, seed, env, run, TARGET, only)
        if only and only.startswith("derive#"):
            m, violations, inconclusive = {"known": {}}, dviol, dinc
        elif pid == "C26":
            import types_check
            m, violations, inconclusive = types_check.run(tier, seed, env, run, TARGET, only)
        elif pid == "C35":
            import located_check
            m, violations, inconclusive = located_check.run(tier, seed, env, run, TARGET, only)
        elif pid == "C30":
            import repeat_check
            m, violations, inconclusive = repeat_check.run(tier, seed, env, run, TARGET, only)
        elif pid == "C31":
            import purity_check
            m, violations, inconclusive = purity_check.run(tier, seed, env, run, [("c", build("c", env, run)), ("rust", build("rust", env, run))], only)
        elif pid == "C27":
            import threads_check
            m, violations, inconclusive = threads_check.run(tier, seed, env, run, only)
        elif pid in ("C19", "C20"):
            import macro_check
            m, violations, inconclusive = macro_check.run(pid, tier, seed, env, run, TARGET, only)
        else:
            binary = build("c", env, run)
            if pid == "C33":
                env["GLIBC_TUNABLES"] = "glibc.malloc.tcache_count=0"
            out = os.path.join(run, "c")
            results, violations, inconclusive = run_shards(binary, pid, out, tier, seed, env, watchdog, only)
            m = merge(results, out)
            if pid == "C23" and not only:
                violations += dviol
                inconclusive += dinc
                m["evaluations"] += extra["generated structures"]["values encoded"]
                m["events"] += sum(extra["generated structures"].values())
                m["distinct_nontrivial"] += len(ddist)
                extra["generated fields"] = dclasses
            if pid in ("C32", "C33"):
                rout = os.path.join(run, "rust")
                r2, v2, i2 = run_shards(build("rust", env, run), pid, rout, tier, seed, env, watchdog, only, "rust")
                m2 = merge(r2, rout)
                violations += v2
                inconclusive += i2
                extra["rust back end"] = {"evaluations": m2["evaluations"], "events": m2["events"]}
            if pid == "C11":
                rbin = build("rust", env, run)
                rout = os.path.join(run, "rust")
                r2, v2, i2 = run_shards(rbin, pid, rout, tier, seed, env, watchdog, only, "rust")
                m2 = merge(r2, rout)
                violations += v2
                inconclusive += i2
                if not only:
                    cases, answers, v3 = compare_logs([out, rout])
                    violations += v3
                    extra["backends"] = {"c": {"evaluations": m["evaluations"], "events": m["events"]},
                                         "rust": {"evaluations": m2["evaluations"], "events": m2["events"]},
                                         "cases_compared_offline": cases, "answers_compared_offline": answers}
                    if cases == 0 and not violations:
                        inconclusive.append("no common cases in the back ends' logs")
            if not violations and (pid in SANITIZED or tier == "thorough") and (not only or os.environ.get("VERIF_ASAN")):
                import threads_check
                ab = threads_check.build(env, run, "asan")
                r4, v4, i4, k = threads_check.run_sanitized(ab, "asan", pid, os.path.join(run, "asan"), "quick", seed, env, 300 if tier == "quick" else 900,
                                                            ["--phase-secs", "8" if tier == "quick" else "40"], only)
                m4 = merge(r4, os.path.join(run, "asan"))
                violations += v4
                inconclusive += i4
                extra["AddressSanitizer and C undefined-behaviour traps"] = {"reports": k, "evaluations": m4["evaluations"], "observations": m4["events"]}
        if not only and not violations and not inconclusive and (m["evaluations"] == 0 or m["distinct_nontrivial"] == 0):
            inconclusive.append("nothing was observed")
        listed = known_findings().get(pid, set())
        for k, n in sorted(m["known"].items()):
            if k in listed:
                print("KNOWN-FINDING: property=%s %s (seen %d times)" % (pid, k, n))
            else:
                violations.append({"case": "known:" + k, "input": "", "detail": "a finding that the known-findings file does not list: " + k})
        wall = time.time() - t0
        if not only:
            cov = {k: m[k] for k in ("evaluations", "distinct_nontrivial", "rule", "samples", "events", "trivial", "classes", "phases", "notes", "known")}
            cov.update(m.get("extra", {}))
            cov.update(extra)
            ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
                  "assumptions": ["the independent oracles in harness/src/oracle are right (self-tested on published vectors at each start)"],
                  "wall_s": round(wall, 2), "violations": len(violations)}
            if inconclusive:
                ev["coverage"]["inconclusive"] = inconclusive
            tmp = os.path.join(EVID, ".%s.%d" % (pid, os.getpid()))
            json.dump(ev, open(tmp, "w"), indent=1)
            os.replace(tmp, os.path.join(EVID, pid + ".json"))
        if violations:
            rp = os.path.join(EVID, "replay-%s.json" % pid)
            json.dump({"property": pid, "tier": tier, "seed": seed, "violations": violations[:20],
                       "replay": "cd /verif && python3 check.py %s --tier %s --seed %d --only '%s'" % (pid, tier, seed, violations[0]["case"])}, open(rp, "w"), indent=1)
            for v in violations[:3]:
                print("case %s input %s: %s" % (v["case"], v["input"][:300], v["detail"][:600]))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            return 1
        if inconclusive:
            for x in inconclusive[:5]:
                print("INCONCLUSIVE:", x[:600])
            return 2
        print("%s held: %d cases (%d distinct non-trivial), %d observations, %.1f s" % (pid, m["evaluations"], m["distinct_nontrivial"], m["events"], wall))
        return 0
    except NoVerdict as e:
        print("NO VERDICT:", e)
        return 2
    finally:
        if os.environ.get("VERIF_KEEP") != "1":
            shutil.rmtree(run, ignore_errors=True)


if __name__ == "__main__":
    sys.modules["check"] = sys.modules["__main__"]
    sys.exit(main())

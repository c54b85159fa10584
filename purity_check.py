"""C31: calls have no effect besides their results.

A child process (harness purity) makes the same calls in many processes: in different orders, repeatedly or alone, in other environments
and directories, at other times (a preloaded shim shifts the clock and records which environment variables are read or set), with other
memory contents, and once under a system call tracer.  Oracles: an offline comparison of the event logs (every call must answer the same in
every process), the system call trace between the markers (only memory management, futexes and random seeds may occur; a call to the system
is blamed on the library call whose marker precedes it), the process state before and after (directory, environment, descriptors, signals,
threads, umask, rounding mode), the shared arguments before and after, and the two output streams, which must stay empty."""
import os, re, shutil, subprocess, sys, time, concurrent.futures as cf

NOISE = {"RUST_LOG": "trace", "RUST_BACKTRACE": "full", "LANG": "tr_TR.UTF-8", "LC_ALL": "de_DE.UTF-8", "TZ": "Asia/Kathmandu", "HOME": "/nonexistent", "DEBUG": "1", "VERBOSE": "1", "CI": "true", "TMPDIR": "/nonexistent/tmp",
         "BITCOIN_CASH": "1", "NETWORK": "testnet", "COLUMNS": "7", "TERM": "dumb", "MALLOC_PERTURB_": "85", "PATH": "", "SOURCE_DATE_EPOCH": "1", "CARGO_MANIFEST_DIR": "/nonexistent", "NO_COLOR": "1", "USER": "nobody"}
# what a computation may ask of the system
QUIET = {"munmap", "mprotect", "mremap", "madvise", "brk", "futex", "getrandom", "sched_yield", "clock_gettime", "gettimeofday", "restart_syscall"}
STD = {"VERIF_SLOW", "RUST_BACKTRACE", "RUST_LIB_BACKTRACE", "RUST_MIN_STACK"}  # read by this harness, and by the standard library itself when a panic is raised or a thread started
LINE = re.compile(r"^(\d+ +)?(?:<\.\.\. )?(\w+)(?:\(| resumed)")


def child(binary, d, env, args, timeout, strace=False, shim=None, shift=0, cwd=None, closed=False, add=None):
    """one process; returns (log lines, trace lines, shim lines, printed, error)"""
    os.makedirs(d, exist_ok=True)
    log = os.path.join(d, "log")
    cmd = [binary, "purity", "--log", log] + args
    e = dict(env)
    if add:
        e.update(add)
    if shim:
        e.update(LD_PRELOAD=shim, VERIF_SHIFT=str(shift), VERIF_SHIM_LOG=os.path.join(d, "shim"))
    if strace:
        cmd = ["strace", "-f", "-s", "200", "-o", os.path.join(d, "trace")] + cmd
    work = cwd or os.path.join(d, "work")
    if not cwd:
        os.makedirs(work, exist_ok=True)
    with open(os.path.join(d, "out"), "wb") as o, open(os.path.join(d, "err"), "wb") as r:
        p = subprocess.Popen(cmd, cwd=work, env=e, stdout=o, stderr=r, stdin=subprocess.DEVNULL, start_new_session=True)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            rc = None
    rd = lambda n: open(os.path.join(d, n), errors="replace").read() if os.path.exists(os.path.join(d, n)) else ""
    printed = rd("out") + rd("err")
    left = [] if cwd else sorted(os.path.relpath(os.path.join(a, f), work) for a, b, c in os.walk(work) for f in b + c)
    res = dict(rc=rc, log=rd("log").split("\n"), trace=rd("trace").split("\n"), shim=rd("shim").split("\n"), printed=printed, left=left)
    shutil.rmtree(d, ignore_errors=True)
    return res


def answers(log):
    """{what: set of (digest, text)}"""
    a = {}
    for l in log:
        w = l.split(" ", 3)
        if w[0] in ("job", "monitor") and len(w) > 3:
            a.setdefault((w[0], w[1]), []).append((w[2], w[3]))
    return a


def calls(trace):
    """[(marker, system call line)] between the markers, and how many system calls were seen there"""
    at, bad, n, inside, marks = "", [], 0, False, 0
    for l in trace:
        m = re.search(r'access\("/verif-marker/([^"]*)"', l)
        if m:
            at, inside = m.group(1), m.group(1) != "end"
            marks += 1
            continue
        if not inside or not l:
            continue
        if "+++" in l or "---" in l:
            bad.append((at, l))
            continue
        k = LINE.match(l)
        if not k:
            continue
        n += 1
        if k.group(2) in QUIET or (k.group(2) == "mmap" and ("MAP_ANONYMOUS" in l or "resumed" in l)):
            continue
        bad.append((at, l))
    return bad, n, marks


def run(tier, seed, env, rundir, binaries, only):
    t0 = time.time()
    quick = tier == "quick"
    V = os.path.dirname(os.path.abspath(__file__))
    base = {"PATH": "/usr/bin:/bin", "HOME": rundir}
    m = {"evaluations": 0, "distinct_nontrivial": 0, "events": 0, "trivial": 0, "classes": {}, "phases": {}, "notes": [], "known": {}, "samples": [],
         "rule": "a case is one call on given objects made in several processes; a call is distinct by its kind and answer, trivial if the answer is empty"}
    stats = {k: 0 for k in ("processes", "answers compared", "system calls seen between markers", "markers seen", "environment variables read", "process states compared", "calls alone in a process", "passes with read variables set")}
    violations, inconclusive = [], []
    rounds = 2 if quick else 60
    if only and "round" in only:
        rounds = 1
    shim = os.path.join(rundir, "shim.so")
    r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-w", "-o", shim, os.path.join(V, "harness", "purity_shim.c"), "-ldl"], capture_output=True, text=True)
    if r.returncode:
        return m, [], ["the shim does not build: " + r.stderr[:300]]
    job_name = {}
    distinct = set()
    for rnd in range(rounds):
        for be, binary in binaries:
            s = seed * 1000 + rnd if not only else int(only.split("#")[1])
            fixtures, per, mon = (5, 4, 40) if be == "c" else (2, 2, 8)
            if not quick:
                fixtures, per, mon = fixtures * 2, per * 2, mon * 3
            com = ["--seed", str(s), "--fixtures", str(fixtures), "--per", str(per)]
            full = com + ["--monitors", str(mon)]
            total = fixtures * per * 29
            plans = [
                ("traced", full + ["--order", "0"], dict(strace=True)),
                ("bare environment", com + ["--order", "1", "--reps", "2"], dict(cwd="/")),
                ("crowded environment", full + ["--order", "2"], dict(add=NOISE)),
                ("40 years later", com + ["--order", "3"], dict(shim=shim, shift=40 * 365 * 86400 + 12345)),
                ("30 years earlier", full + ["--order", "4"], dict(shim=shim, shift=-30 * 365 * 86400 - 54321)),
                ("repeated", com + ["--order", "5", "--reps", "4"], dict(add={"MALLOC_PERTURB_": "170"})),
            ]
            k = (48 if be == "c" else 12) * (1 if quick else 2)
            step = max(1, total // k)
            for i in range(k):
                j = (i * step + s * 7 + i % 3) % total
                plans.append(("alone", com + ["--order", "0", "--only", str(j)], dict(strace=i % 4 == 0, add={"MALLOC_PERTURB_": "33"} if i % 4 == 1 else None)))
            with cf.ThreadPoolExecutor(8) as ex:
                futs = [(n, a, ex.submit(child, binary, os.path.join(rundir, "p-%s-%d-%d" % (be, rnd, i)), {} if n == "bare environment" else base, a, 400, **kw)) for i, (n, a, kw) in enumerate(plans)]
                got = [(n, a, f.result()) for n, a, f in futs]
                # the variables that were read are set in further processes
                read = set()
                for n, a, x in got:
                    for l in x["shim"]:
                        if l.startswith("getenv "):
                            read.add(l.split("\t")[0][7:])
                read -= STD | set(NOISE)
                stats["environment variables read"] += len(read)
                if read:
                    vals = ["1", "0", "true", "/nonexistent"]
                    more = [("read variables set", full + ["--order", "6"], dict(strace=i == 0, add={v: val for v in read})) for i, val in enumerate(vals)]
                    futs = [(n, a, ex.submit(child, binary, os.path.join(rundir, "q-%s-%d-%d" % (be, rnd, i)), base, a, 400, **kw)) for i, (n, a, kw) in enumerate(more)]
                    got += [(n, a, f.result()) for n, a, f in futs]
                    stats["passes with read variables set"] += len(more)
            ref = {}
            for n, a, x in got:
                stats["processes"] += 1
                case = "round#%d" % s
                bad = lambda d, inp="": violations.append({"case": case, "input": "%s back end, process `%s`%s" % (be, n, " " + inp if inp else ""), "detail": d, "backend": be})
                traced = any(l for l in x["trace"])
                if x["rc"] != 0:
                    if x["rc"] is not None and "strace" in x["printed"] and not traced:
                        inconclusive.append("the system call tracer does not run here: " + x["printed"][:200])
                    elif x["rc"] is not None and x["rc"] != 0 and traced is False and x["rc"] < 0:
                        bad("the process died with signal %d: %s" % (-x["rc"], x["printed"][:300]))
                    else:
                        at = calls(x["trace"])[0][-1:] if traced else ""
                        bad("the process ended with status %s (%s) %s" % (x["rc"], at, x["printed"][:300]))
                    continue
                if x["printed"]:
                    bad("something is printed: %r" % x["printed"][:300])
                if x["left"]:
                    bad("files are left in the working directory: %s" % x["left"][:5])
                if traced:
                    odd, seen, marks = calls(x["trace"])
                    stats["system calls seen between markers"] += seen
                    stats["markers seen"] += marks
                    if marks == 0:
                        inconclusive.append("no markers in the trace")
                    for at, l in odd[:2]:
                        bad("a call to the system: %s" % l[:300], "in `%s`" % at)
                for l in x["shim"]:
                    if re.match(r"(setenv|unsetenv|putenv|sleep) ", l):
                        bad("the environment is changed or the process put to sleep: %s" % l.replace("\t", " in "))
                st = {l.split(" ", 1)[0]: l.split(" ", 1)[1] for l in x["log"] if l.startswith(("before ", "after ", "arguments "))}
                stats["process states compared"] += 1
                if st.get("before") != st.get("after"):
                    bad("the process is not as it was: %s / %s" % (diff(st.get("before", ""), st.get("after", ""))))
                u, v = (st.get("arguments", "? !") + " ").split(" ")[:2]
                if u != v:
                    bad("the arguments of the calls are no longer what they were")
                for key, rs in answers(x["log"]).items():
                    for d, text in rs:
                        if key not in ref:
                            ref[key] = (d, text, n)
                            if key[0] == "job":
                                m["evaluations"] += 1
                                kind = text.split(" ")[0].replace("_", " ")
                                job_name[kind] = job_name.get(kind, 0) + 1
                                distinct.add((be, kind, d))
                                if len(m["samples"]) < 4 and m["evaluations"] % 37 == 5:
                                    m["samples"].append("%s: %s" % (kind, text.split(" ", 1)[1][:200]))
                            continue
                        stats["answers compared"] += 1
                        if n == "alone":
                            stats["calls alone in a process"] += 1
                        if ref[key][0] != d:
                            bad("the same call (%s %s) answers differently in process `%s`: %s / %s" % (key + (ref[key][2],) + diff(ref[key][1], text)))
            if violations or inconclusive:
                break
        if violations or inconclusive:
            break
        if not quick and time.time() - t0 > 1500:
            break
    m["classes"] = {"call " + k: v for k, v in sorted(job_name.items())}
    m["distinct_nontrivial"] = len(distinct)
    m["extra"] = {"observed": stats}
    m["events"] = stats["answers compared"] + stats["system calls seen between markers"] + stats["process states compared"]
    m["phases"] = {"processes": {"planned": stats["processes"], "run": stats["processes"], "secs": round(time.time() - t0, 2)}}
    if not violations and not inconclusive and (stats["answers compared"] == 0 or stats["system calls seen between markers"] == 0):
        inconclusive.append("nothing was observed")
    return m, violations, inconclusive


def diff(a, b):
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return a[max(0, i - 40):i + 120], b[max(0, i - 40):i + 120]

"""C30: compiling a script is reproducible.

The same script functions (accepted and rejected ones) and derived structures are expanded by the real macros many times: several compiler
processes at once on the same files with a shared temporary directory, in different homes, directories, languages and time zones, and with
only some of the functions of a file present.  The recorded trace is what the compiler printed: the expanded code of each function
and each error with its place.  An offline checker compares the traces function by function; a second one compares the file tree of every
pass before and after."""
import hashlib, json, os, random, re, shutil, signal, subprocess, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "macro"))
import gen
from gen import I, B, Y
import macro_check as mc
import types_check as tc

USE = "use bitcoin_cash::{self, Opcode::*, ByteArray, Integer, Pubkey, Sha1, Ripemd160, Sha256, Sha256d, Hash160, TxPreimage, Hashed, Ops, BitcoinCode};\nuse bitcoin_cash as bch;\n"
NAMES = ["A", "B", "Cc", "Dee", "E5", "Fox", "Golf", "Hotel"]
WORDS = ["sig", "pk", "owner", "oracle", "msg", "rate", "a", "b", "x", "preimage"]


def variants(r, n):
    """n variants told apart by conditions c0, c1, c2: [(name, {condition: bool})]"""
    paths = [{}]
    for c in ("c0", "c1", "c2"):
        while len(paths) < n and any(c not in p for p in paths):
            p = next(p for p in paths if c not in p)
            paths.remove(p)
            paths += [dict(p, **{c: True}), dict(p, **{c: False})]
    names = r.sample(NAMES, len(paths))
    r.shuffle(paths)
    return list(zip(names, paths))


def attr(vs):
    return ", ".join(["In"] + ['%s = "%s"' % (n, "&&".join(("" if b else "!") + c for c, b in p.items())) for n, p in vs])


def joined(r):
    """two or more variants that leave something different at the same place (types, names, depths, errors), and opcodes that look at it"""
    vs = variants(r, r.choice([2, 2, 2, 3, 4]))
    conds = sorted({c for _, p in vs for c in p})
    words = r.sample(WORDS, 4)
    ins = [("%s: %s" % (w, r.choice(tc.FIELD[r.choice([I, B, Y])]))) for w in words[:3]]
    args = ins + ["%s: bool" % c for c in reversed(conds)]
    what = r.choice(["types", "depths", "names", "errors", "restricted", "alt"])
    body = []
    leaf = iter(range(100))

    def branch(k):
        if what == "types":
            return [r.choice(tc.PUSH[r.choice([I, B, Y])]) + ";"]
        if what == "depths":
            return [r.choice(["depth_of(%s);" % r.choice(words[:3]), "depth_of_offset(%s, %d);" % (r.choice(words[:3]), r.randint(0, 1)), "%d;" % r.randint(0, 3)])]
        if what == "names":
            return ["let %s = %s;" % (r.choice(["u", "w", words[0]]), r.choice(tc.PUSH[r.choice([I, B, Y])]))]
        if what == "errors":
            return [r.choice(["OP_DROP(nope%d);" % k, "OP_ADD; OP_VERIFY;", "OP_SHA256(%s);" % r.choice(words), "let q = depth_of(gone);", "OP_CAT;", "OP_DROP; " * 6, "5;", "OP_NOT;"])]
        if what == "alt":
            return [r.choice(["5; OP_TOALTSTACK;", "OP_FROMALTSTACK;", "let n = 5; OP_TOALTSTACK(n);", "5;"])]
        return [r.choice(["5;", "OP_DUP;", "let t = true;", "OP_DROP;"])]

    def tree(cs, k):
        if not cs or k > 3:
            return branch(next(leaf))
        c = cs[0]
        return ["OP_IF(%s);" % c] + tree(cs[1:], k + 1) + ["OP_ELSE;"] + tree(cs[1:], k + 1) + ["OP_ENDIF;"]
    body += tree(conds, 0)
    if what == "restricted":
        v = r.sample([n for n, _ in vs], r.randint(1, len(vs)))
        args[r.randrange(len(ins))] = "#[variant(%s)] extra: %s" % (", ".join(v), r.choice(tc.FIELD[r.choice([I, B, Y])]))
    ops = ["OP_PICK;", "OP_ROLL;", "OP_1ADD;", "OP_NOT;", "OP_SHA256;", "OP_SIZE;", "OP_DUP;", "OP_SWAP;", "OP_EQUAL;", "OP_HASH160;", "OP_ADD;", "OP_CAT;", "let z = OP_1ADD;", "OP_DROP;",
           "OP_DROP(%s);" % r.choice(words), "OP_DROP(u);", "OP_2DUP;", "OP_FROMALTSTACK;", "OP_VERIFY;", "let e = depth_of(%s);" % words[0], "OP_TOALTSTACK;"]
    if what == "depths":
        body.append(r.choice(["OP_PICK;", "OP_ROLL;", "let m = OP_PICK;", "let m = OP_ROLL;"]))
    for _ in range(r.randint(1, 5)):
        body.append(r.choice(ops))
    return "differing " + what, "pub struct P { pub n: i32, pub b: bool, pub y: ByteArray }\n#[bitcoin_cash::script(%s)]\npub fn s(params: P, %s) {\n    %s\n}\n" % (attr(vs), ", ".join(args), "\n    ".join(body))


def attributes(r):
    """attribute lists of every shape, also wrong ones: duplicates, unknown names, unparsable predicates"""
    vs = variants(r, r.choice([2, 3, 4, 6]))
    parts = ["In"] + ['%s = "%s"' % (n, "&&".join(("" if b else "!") + c for c, b in p.items())) for n, p in vs]
    bad = r.choice(["none", "again", "again2", "unparsable", "unknown", "overlap", "missing", "flags"])
    if bad == "again":
        parts.append(r.choice(parts[1:]))
    elif bad == "again2":
        parts += [parts[1], parts[-1]]
    elif bad == "unparsable":
        parts += ['X1 = "c0 &&"', 'X2 = "|| c1"'] if r.random() < 0.5 else ['X1 = 5', 'X2 = true']
    elif bad == "unknown":
        parts += ['X1 = "other"', 'X2 = "another && !third"']
    elif bad == "overlap":
        parts += ['Y1 = "c0"', 'Y2 = "!c0"']
    elif bad == "missing":
        parts.pop()
    elif bad == "flags":
        parts += ["debug = false", 'crate = "bch"']
    conds = sorted({c for _, p in vs for c in p})
    return "attribute list: " + bad, "pub struct P { pub n: i32 }\n#[bitcoin_cash::script(%s)]\npub fn s(params: P, a: ByteArray, %s) {\n    %s\n}\n" % (
        ", ".join(parts), ", ".join("%s: bool" % c for c in reversed(conds)), "\n    ".join("OP_IF(%s); OP_ENDIF;" % c for c in conds) + " OP_SHA256(a);")


def structure(r):
    fs = []
    for i in range(r.randint(1, 6)):
        t = r.choice(["u8", "u16", "i32", "u64", "[u8; 4]", "Vec<u8>", "[u8; 32]"])
        a = r.choice(["", "", '#[bitcoin_code(order = "%s")] ' % r.choice(["little", "big", "middle"]), '#[bitcoin_code(zero = "x")] '])
        fs.append("%spub f%d: %s" % (a, i, t))
    return "derived structure", "#[derive(bitcoin_cash::BitcoinCode, Clone)]\npub struct S { %s }\n" % ", ".join(fs)


def functions(seed, n):
    """[(kind, text)] every text is the body of one module"""
    out = []
    for i in range(n):
        r = random.Random("%d/repeat/%d" % (seed, i))
        k = i % 8
        if k < 3:
            p = gen.program(random.Random("%d/repeat/p%d" % (seed, i)), i)
            pr = "#[derive(Clone)] pub struct P { %s }\n" % ", ".join("pub %s: %s" % (f, ty) for f, ty, _, _, _ in p.params)
            if k < 2:
                out.append(("random function", pr + gen.function(p, p.items, debug=r.choice([None, None, False]))))
            else:
                what, its = r.choice(gen.mutants(r, p))
                inputs = None
                if isinstance(its, tuple):
                    its, inputs = its
                out.append(("mutant: " + what, pr + gen.function(p, its, inputs=inputs)))
        elif k < 6:
            out.append(joined(r))
        elif k == 6:
            out.append(attributes(r))
        else:
            out.append(structure(r))
    return out


class Trace:
    """what one pass observed: {module: (expanded code, [(message, place)])}"""
    def __init__(self):
        self.code, self.errors = {}, {}


MOD = re.compile(r"^(?:pub )?mod m(\d+) \{", re.M)


def read_trace(tr, stdout, stderr, spans, rest):
    at = [(x.start(), int(x.group(1))) for x in MOD.finditer(stdout)]
    for (a, j), (z, _) in zip(at, at[1:] + [(len(stdout), None)]):
        t = stdout[a:z]
        if _ is None:
            t = t[:t.rindex("fn main")]
        tr.code[j] = t[:t.rindex("}") + 1]
    for l in stderr.split("\n"):
        if not l.startswith("{"):
            if l.strip():
                rest.append(l)
            continue
        msg = json.loads(l)
        if msg.get("level") not in ("error", "warning"):
            continue
        places = []
        for s in msg["spans"]:
            places += place(s)
        hit = next(((a, j) for (a, z), j in spans for ln, _ in places if a <= ln <= z), None)
        key = (msg["level"], msg["message"])
        if hit is None:
            if msg["level"] == "error" and not msg["message"].startswith("aborting"):
                rest.append(msg["message"])
            continue
        a, j = hit
        tr.errors.setdefault(j, []).append((key, sorted((ln - a, c) for ln, c in places), [c["message"] for c in msg["children"]]))


def place(s):
    p = [(s["line_start"], s["column_start"])]
    return p + (place(s["expansion"]["span"]) if s.get("expansion") else [])


def tree(*dirs):
    out = {}
    for d in dirs:
        for root, ds, fs in os.walk(d):
            for f in fs + ds:
                p = os.path.join(root, f)
                st = os.lstat(p)
                out[p] = (st.st_mode, st.st_size if f in fs else 0)
    return out


def run(tier, seed, env, rundir, target, only=None):
    repo = os.environ.get("VERIF_REPO", "/repo")
    env = dict(env, CARGO_TARGET_DIR=os.path.join(target, "m"))
    quick = tier == "quick"
    t0 = time.time()
    m = {"evaluations": 0, "distinct_nontrivial": 0, "events": 0, "trivial": 0, "classes": {}, "known": {}, "samples": [], "phases": {}, "notes": [],
         "rule": "script functions (random, single-error mutants, variants leaving different types, names, depths or errors behind, attribute lists) and derived structures, each expanded "
                 "once per pass; non-trivial if its expansion or its errors mention it, distinct by source text"}
    violations, inconclusive = [], []
    n = 640 if quick else 6000
    nb = 8
    stats = {"functions": 0, "accepted": 0, "rejected": 0, "passes": 0, "concurrent compiler processes": 0, "expansions compared": 0, "errors compared": 0, "file trees compared": 0,
             "expanded in other company": 0}
    if only and not only.startswith("function#"):
        return m, violations, ["unknown case " + only]
    crate = os.path.join(rundir, "crate")
    os.makedirs(os.path.join(crate, "src"))
    open(os.path.join(crate, "Cargo.toml"), "w").write(mc.CARGO % repo)
    shutil.copy(os.path.join(mc.VERIF, "macro", "Cargo.lock"), crate)
    open(os.path.join(crate, "src", "main.rs"), "w").write("use bitcoin_cash as _;\nfn main() {}\n")
    p = subprocess.run(["cargo", "build", "--offline", "--message-format=json"], cwd=crate, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=600)
    lib = None
    for l in p.stdout.decode(errors="replace").split("\n"):
        if l.startswith("{"):
            a = json.loads(l)
            if a.get("reason") == "compiler-artifact" and a["target"]["name"].replace("-", "_") == "bitcoin_cash":
                lib = next((f for f in a["filenames"] if f.endswith(".rlib")), None)
    if p.returncode or not lib:
        return m, violations, ["the library does not build: " + p.stderr.decode(errors="replace")[-600:]]
    fns = functions(seed, n)
    ids = list(range(n))
    if only:
        ids = [int(only.split("#")[1])] * 1
    src = os.path.join(rundir, "src")
    os.makedirs(src)
    deps = os.path.join(os.path.dirname(os.path.dirname(lib)), "debug", "deps")
    deps = os.path.dirname(lib) if not os.path.isdir(deps) else deps
    passes = []
    npass = 8 if quick else 12
    conditions = [("C", "UTC"), ("de_DE.UTF-8", "Asia/Kolkata"), ("tr_TR.UTF-8", "America/St_Johns"), ("C.UTF-8", "Pacific/Kiritimati")]

    def write(order):
        """the files of one arrangement; [(file, spans)]"""
        out = []
        for k in range(nb):
            part = [j for j in order if j % nb == k]
            if not part:
                continue
            # a function stays on its lines whether or not the others are there
            mods = ["pub mod m%d {\n%s%s}" % (j, USE, fns[j][1]) for j in ids if j % nb == k]
            text, sp = mc.layout(mods)
            lines = text.split("\n")
            for (a, z), j in zip(sp, [j for j in ids if j % nb == k]):
                if j not in order:
                    lines[a - 1:z] = [""] * (z - a + 1)
            text = "\n".join(lines)
            sp = [x for x, j in zip(sp, [j for j in ids if j % nb == k]) if j in order]
            f = os.path.join(src, "g%02d.rs" % k)
            open(f, "w").write(text + "fn main() {}\n")
            out.append((f, list(zip(sp, part))))
        return out

    def one_pass(files, number, rest):
        """one compiler per file, all at once"""
        d = os.path.join(rundir, "pass%d" % number)
        home, cwd = os.path.join(d, "home"), os.path.join(d, "cwd")
        os.makedirs(os.path.join(home, ".config", "rustfmt"))
        os.makedirs(cwd)
        if number % 2:
            for x in (os.path.join(home, ".config", "rustfmt", "rustfmt.toml"), os.path.join(home, ".rustfmt.toml"), os.path.join(cwd, "rustfmt.toml"), os.path.join(rundir, "rustfmt.toml")):
                open(x, "w").write("tab_spaces = %d\nhard_tabs = %s\nmax_width = 40\n" % (2 + number, "true" if number % 4 == 1 else "false"))
        lang, tz = conditions[number % len(conditions)]
        rustup = os.environ.get("RUSTUP_HOME") or os.path.join(os.environ.get("HOME", "/root"), ".rustup")
        cargoh = os.environ.get("CARGO_HOME") or os.path.join(os.environ.get("HOME", "/root"), ".cargo")
        e = dict(env, RUSTC_BOOTSTRAP="1", RUST_MIN_STACK=str(256 << 20), TMPDIR=shared, LANG=lang, LC_ALL=lang, TZ=tz, RUSTUP_HOME=rustup, CARGO_HOME=cargoh, COLUMNS=str(40 + 20 * number))
        if number:
            e["HOME"] = home
        if number % 3 == 2:
            e.update({"CARGO_PKG_NAME": "other", "CARGO_MANIFEST_DIR": cwd, "OUT_DIR": cwd, "USER": "someone"})
        before = tree(home, cwd)
        procs = []
        for f, sp in files:
            procs.append((subprocess.Popen(["rustc", "-Alegacy_derive_helpers", "-Awarnings", "--edition=2018", "--error-format=json", "-Zunpretty=expanded", "--extern", "bitcoin_cash=" + lib, "-L", "dependency=" + deps, f],
                                           cwd=cwd, env=e, stdout=open(os.path.join(d, os.path.basename(f) + ".out"), "wb"), stderr=open(os.path.join(d, os.path.basename(f) + ".err"), "wb"),
                                           stdin=subprocess.DEVNULL, start_new_session=True), f, sp))
        return d, home, cwd, before, procs

    def finish(started, rest):
        d, home, cwd, before, procs = started
        tr = Trace()
        for pr, f, sp in procs:
            try:
                pr.wait(timeout=400 if quick else 1500)
            except subprocess.TimeoutExpired:
                os.killpg(pr.pid, signal.SIGKILL)
                pr.wait()
                inconclusive.append("a compiler exceeded its time")
                continue
            b = os.path.basename(f)
            o = open(os.path.join(d, b + ".out"), errors="replace").read()
            er = open(os.path.join(d, b + ".err"), errors="replace").read()
            if pr.returncode not in (0, 1, 101):
                inconclusive.append("a compiler ended with %d: %s" % (pr.returncode, er[-300:]))
                continue
            read_trace(tr, o, er, sp, rest)
            stats["concurrent compiler processes"] += 1
        after = tree(home, cwd)
        stats["file trees compared"] += 2
        stats["passes"] += 1
        if after != before:
            ch = sorted(set(after.items()) ^ set(before.items()))[:3]
            violations.append({"case": "function#%d" % ids[0], "input": "", "detail": "expanding changes the files of the home or working directory: %s" % ch})
        return tr

    shared = os.path.join(rundir, "tmp")
    os.makedirs(shared)
    first = None
    rests = []
    done = 0
    r = random.Random("%d/repeat/order" % seed)
    while done < npass and not violations and not inconclusive:
        order = list(ids)
        if done >= npass // 2:
            if not only:
                order = sorted(r.sample(order, len(order) // r.choice([2, 3, 4])))
        files = write(order)
        # two passes at once: their temporary files share a directory
        both = [one_pass(files, done, rests), one_pass(files, done + 1, rests)]
        for k, st in enumerate(both):
            rest = []
            tr = finish(st, rest)
            if inconclusive:
                break
            if first is None:
                first = tr
                bad = [j for j in ids if j not in tr.code]
                if bad or rest:
                    inconclusive.append("no expansion of functions %s; %s" % (bad[:5], rest[:2]))
                    break
                for j in ids:
                    stats["accepted" if j not in tr.errors else "rejected"] += 1
                continue
            for j in order:
                if j not in tr.code:
                    inconclusive.append("no expansion of function %d" % j)
                    break
                a, b = first.code[j], tr.code[j]
                if a != b:
                    i = next((i for i, (x, y) in enumerate(zip(a.split("\n"), b.split("\n"))) if x != y), 0)
                    violations.append({"case": "function#%d" % j, "input": fns[j][1],
                                       "detail": "expanded differently in another pass: `%s` / `%s`" % (excerpt(a, b))})
                ea, eb = sorted(first.errors.get(j, [])), sorted(tr.errors.get(j, []))
                if ea != eb:
                    violations.append({"case": "function#%d" % j, "input": fns[j][1], "detail": "other errors in another pass: %s / %s" % (str(ea)[:300], str(eb)[:300])})
                stats["expansions compared"] += 1
                stats["errors compared"] += len(ea)
                if order != ids:
                    stats["expanded in other company"] += 1
            if not violations and rest:
                violations.append({"case": "function#%d" % order[0], "input": "", "detail": "something is printed only in some passes: %s" % rest[:2]})
        left = sorted(os.listdir(shared))
        stats["file trees compared"] += 1
        if left and not violations and not inconclusive:
            violations.append({"case": "function#%d" % order[0], "input": "", "detail": "files left in the temporary directory: %s" % left[:5]})
        for k in (done, done + 1):
            shutil.rmtree(os.path.join(rundir, "pass%d" % k), ignore_errors=True)
        if os.path.exists(os.path.join(rundir, "rustfmt.toml")):
            os.unlink(os.path.join(rundir, "rustfmt.toml"))
        done += 2
    distinct = set()
    stats["functions"] = len(ids)
    for j in ids:
        m["evaluations"] += stats["passes"] and 1
        kind, text = fns[j]
        ok = first is not None and j not in first.errors
        key = "%s, %s" % (kind if not kind.startswith("mutant") else "mutant", "accepted" if ok else "rejected")
        m["classes"][key] = m["classes"].get(key, 0) + 1
        if first is not None and (first.errors.get(j) or "ops" in first.code.get(j, "") or "BitcoinCode" in first.code.get(j, "")):
            distinct.add(hashlib.sha256(text.encode()).digest()[:8])
        else:
            m["trivial"] += 1
        if len(m["samples"]) < 5 and kind.startswith("differing") and j % 5 == 3:
            m["samples"].append(text)
    violations.sort(key=lambda v: len(v["input"]) if v["input"] else 10 ** 9)
    m["distinct_nontrivial"] = len(distinct)
    m["extra"] = {"observed": stats}
    m["events"] = stats["expansions compared"] + stats["errors compared"] + stats["file trees compared"]
    m["phases"] = {"expansions": {"planned": n * npass, "run": stats["expansions compared"], "secs": round(time.time() - t0, 2)}}
    return m, violations, inconclusive


def excerpt(a, b):
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return a[max(0, i - 60):i + 100], b[max(0, i - 60):i + 100]

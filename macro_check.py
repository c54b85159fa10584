"""C19 and C20: script functions are generated (macro/gen.py), compiled with the real macro and run; the log of what the
generated code emitted is then checked offline.

C19: the recorded operations against what was written.  C20: the recorded operations are executed on a stack of labelled
cells, every annotation compared with the cell it is attached to; single-error mutants must not compile."""
import hashlib, json, os, random, re, shutil, signal, subprocess, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "macro"))
import gen

VERIF = os.path.dirname(os.path.abspath(__file__))
NAME = {v: k for k, v in gen.OPB.items()}

CARGO = """[package]
name = "macrorun"
version = "0.1.0"
edition = "2018"

[workspace]

[dependencies]
bitcoin-cash = { path = "%s/bitcoin-cash" }

[profile.dev]
debug = 0
incremental = false
"""

HELPER = """#![allow(warnings)]
pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
pub fn names(n: &Option<Vec<Option<std::borrow::Cow<'static, str>>>>) -> String {
    match n {
        None => "-".into(),
        Some(v) => format!("[{}]", v.iter().map(|x| match x { None => "~".to_string(), Some(s) => s.to_string() }).collect::<Vec<_>>().join(",")),
    }
}
pub fn dump(tag: &str, ops: &[bitcoin_cash::TaggedOp], whole: Option<Vec<u8>>) {
    use bitcoin_cash::BitcoinCode;
    println!("P {}", tag);
    for op in ops {
        let one = bitcoin_cash::Script::new(vec![bitcoin_cash::TaggedOp::from_op(op.op.clone())]).ser();
        let src = op.src_code.iter().map(|(w, s)| format!("{}:{}", w, hex(s.as_bytes()))).collect::<Vec<_>>().join(",");
        println!("O {} {} {} {} {}", hex(&one), names(&op.pushed_names), names(&op.alt_pushed_names), src, hex(op.src_file.as_bytes()));
    }
    if let Some(w) = whole { println!("W {}", hex(&w)); }
}
"""


def module(p, twin):
    out = ["pub mod m%d {" % p.id, "use bitcoin_cash::{self, Opcode::*, ByteArray, Integer, Ops, BitcoinCode};", "use bitcoin_cash as bch;"]
    out.append("#[derive(Clone)] pub struct P { %s }" % ", ".join("pub %s: %s" % (f, ty) for f, ty, _, _, _ in p.params))
    out.append(gen.function(p, p.items))
    ctor = ["P { %s }" % ", ".join("%s: %s" % (f, ex[k]) for f, _, ex, _, _ in p.params) for k in range(2)]
    run = ["pub fn run() {"]
    for k in range(2):
        run.append('    { let t = (%s).s(); let n = t.script_ops().count(); assert_eq!(n, t.ops().len()); assert!(t.script_ops().zip(t.ops().iter()).all(|(a, b)| *a == b.op)); crate::dump("%d main %d", &t.ops(), Some(t.clone().script().ser().to_vec())); }' % (ctor[k], p.id, k))
    for v in p.names:
        path = "In" if not p.variants else "In::%s" % v
        run.append('    { let i = %s { %s }; crate::dump("%d in %s", &i.ops(), None); }' % (
            path, ", ".join("%s: %s" % (n, e[0]) for n, e in reversed(p.input_values[v])), p.id, v))
    if twin:
        out.append("pub mod twin {\nuse super::*;\n#[derive(Clone)] pub struct P { %s }" % ", ".join("pub %s: %s" % (f, ty) for f, ty, _, _, _ in p.params))
        out.append(gen.function(p, p.items, debug=False))
        out.append("pub fn run() {")
        for k in range(2):
            out.append('    { let t = (%s).s(); crate::dump("%d twin %d", &t.ops(), Some(t.clone().script().ser().to_vec())); }' % (ctor[k], p.id, k))
        for v in p.names:
            path = "In" if not p.variants else "In::%s" % v
            out.append('    { let i = %s { %s }; crate::dump("%d twinin %s", &i.ops(), None); }' % (
                path, ", ".join("%s: %s" % (n, e[0]) for n, e in p.input_values[v]), p.id, v))
        out.append("}\n}")
        run.append("    twin::run();")
    run.append("}")
    return "\n".join(out + run + ["}"])


def cargo(args, cwd, env, timeout):
    env = dict(env, RUST_MIN_STACK=str(256 << 20))
    p = subprocess.Popen(["cargo", "build", "--offline", "--message-format=json"] + args, cwd=cwd, env=env, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        return None, [], "cargo exceeded %d s" % timeout
    msgs = []
    for l in o.decode(errors="replace").split("\n"):
        if l.startswith("{"):
            m = json.loads(l)
            if m.get("reason") == "compiler-message":
                msgs.append((m["target"]["name"], m["message"]))
    return p.returncode, msgs, e.decode(errors="replace")[-2000:]


def lines_of(span, out):
    out.add(span["line_start"])
    if span.get("expansion"):
        lines_of(span["expansion"]["span"], out)


def errors_by_line(msgs, target):
    """{line: message} of every error of one target"""
    r = {}
    for t, m in msgs:
        if t == target and m["level"] == "error":
            ls = set()
            for s in m["spans"]:
                if s["file_name"].endswith("%s.rs" % target):
                    lines_of(s, ls)
            for l in ls:
                r.setdefault(l, m["message"])
            if not ls:
                r.setdefault(0, m["message"])
    return r


def layout(mods):
    """source text and the (first, last) line of each module"""
    text, spans, line = HELPER, [], HELPER.count("\n") + 1
    for m in mods:
        n = m.count("\n") + 1
        spans.append((line, line + n - 1))
        text += m + "\n"
        line += n
    return text, spans


def strip_len(b):
    """a serialised script is its length followed by its bytes"""
    w = {0xFD: 2, 0xFE: 4, 0xFF: 8}.get(b[0], 0)
    n = int.from_bytes(b[1:1 + w], "little") if w else b[0]
    if len(b) != 1 + w + n:
        raise ValueError("length prefix of a script")
    return b[1 + w:]


def parse_op(b):
    """('push', bytes) or ('op', byte)"""
    o = b[0]
    if o == 0:
        r, used = b"", 1
    elif o <= 75:
        r, used = b[1:1 + o], 1 + o
    elif o in (76, 77, 78):
        w = 1 << (o - 76)
        n = int.from_bytes(b[1:1 + w], "little")
        r, used = b[1 + w:1 + w + n], 1 + w + n
    elif o == 0x4F:
        r, used = b"\x81", 1
    elif 0x51 <= o <= 0x60:
        r, used = bytes([o - 0x50]), 1
    else:
        if len(b) != 1:
            raise ValueError("trailing bytes")
        return ("op", o)
    if used != len(b):
        raise ValueError("push length")
    return ("push", r)


def parse_names(s):
    if s == "-":
        return None
    s = s[1:-1]
    return [] if s == "" else [None if x == "~" else x for x in s.split(",")]


def norm(s):
    return re.sub(r"[\s,;]", "", s)


class Bad(Exception):
    def __init__(self, prop, msg):
        self.prop, self.msg = prop, msg


def expected(items, k):
    """what the statements say: ('push', value) / ('op', byte) / ('depth', (name, offset))"""
    out = []
    for it in items:
        if it.kind in ("text", "none"):
            continue
        if it.kind == "push":
            out.append((it, ("push", it.value[k])))
        elif it.kind == "depth":
            out.append((it, ("depth", it.depth)))
        else:
            b = gen.OPB[it.op]
            if b in (0, 0x4F) or 0x51 <= b <= 0x60:
                out.append((it, parse_op(bytes([b]))))
            else:
                out.append((it, ("op", b)))
    return out


def check_ops(p, k, log, whole, prop="C19"):
    exp = expected(p.items, k)
    if len(exp) != len(log):
        raise Bad(prop, "parameter set %d: %d operations written, %d emitted: %s" % (k, len(exp), len(log), [o[0].hex() for o in log]))
    for i, ((it, e), o) in enumerate(zip(exp, log)):
        got = parse_op(o[0])
        if e[0] == "depth":
            if got[0] != "push":
                raise Bad(prop, "statement `%s` emitted %s" % (it.text, o[0].hex()))
        elif got != e:
            raise Bad(prop, "statement %d `%s` (parameter set %d) emitted %s, meant %s" % (i, it.text, k, o[0].hex(), e))
    if whole is not None and b"".join(o[0] for o in log) != whole:
        raise Bad(prop, "the script is not the concatenation of its operations")
    return len(log)


class Cell:
    __slots__ = ("name", "uid")

    def __init__(self, name, uid):
        self.name, self.uid = name, uid


def num(b):
    if not b:
        return 0
    x = int.from_bytes(b, "little")
    top = 1 << (8 * len(b) - 1)
    return -(x - top) if x & top else x


def execute(p, log, variant, truth, rng):
    """runs the emitted operations on labelled cells and compares the annotations; returns the number of comparisons"""
    items = [it for it in p.items if it.kind not in ("text", "none")]
    stack = [Cell(n, i) for i, (n, _) in enumerate(p.input_values[variant])]
    values = {}
    alt = []
    uid = [len(stack)]
    cond = []
    seen = 0
    trace = []

    def new(name):
        uid[0] += 1
        return Cell(name, uid[0])

    for it, o in zip(items, log):
        kind, val = parse_op(o[0])
        pushed, altpushed = o[1], o[2]
        op = NAME.get(val) if kind == "op" else None
        if op == "OP_IF":
            if all(cond):
                c = stack.pop()
                t = truth[c.name] if c.name in truth else rng.random() < 0.5
                cond.append(t)
                trace.append("1" if t else "0")
            else:
                cond.append(None)
            continue
        if op == "OP_ELSE":
            if cond[-1] is not None:
                cond[-1] = not cond[-1]
            continue
        if op == "OP_ENDIF":
            cond.pop()
            continue
        if not all(cond):
            continue
        if op == "OP_RETURN":
            break
        outs = it.outs
        want_alt = []
        if kind == "push":
            c = new(outs[0] if outs else None)
            if it.kind == "depth":
                n, off = it.depth
                d = next((i for i in range(len(stack)) if stack[-1 - i].name == n), None)
                if d is None:
                    raise Bad("C20", "variant %s: `%s`, but nothing named %s is on the stack" % (variant, it.text, n))
                if num(val) != d + off:
                    raise Bad("C20", "variant %s: `%s` pushes %d, but `%s` is %d deep" % (variant, it.text, num(val), n, d))
            values[c.uid] = val
            stack.append(c)
            produced = [c]
        elif op == "OP_TOALTSTACK":
            c = stack.pop()
            if outs:
                c = Cell(outs[0], c.uid)
            alt.append(c)
            produced = []
            want_alt = [c.name]
        elif op == "OP_FROMALTSTACK":
            c = alt.pop()
            if outs:
                c = Cell(outs[0], c.uid)
            stack.append(c)
            produced = [c]
        elif op in ("OP_PICK", "OP_ROLL"):
            d = num(values[stack.pop().uid])
            if d < 0 or d >= len(stack):
                raise Bad("C20", "variant %s: `%s` reaches %d deep into a stack of %d" % (variant, it.text, d, len(stack)))
            c = stack[-1 - d]
            if op == "OP_ROLL":
                del stack[len(stack) - 1 - d]
            c = Cell(outs[0] if outs else c.name, c.uid)
            stack.append(c)
            produced = [c]
        else:
            ins, eff = gen.EFF[op]
            n = len(ins)
            if n > len(stack):
                raise Bad("C20", "variant %s: `%s` needs %d items, the stack has %d" % (variant, it.text, n, len(stack)))
            args = stack[len(stack) - n:]
            if it.args is not None:
                for a, c in zip(it.args, args):
                    if a != "__" and a != c.name:
                        raise Bad("C20", "variant %s: `%s` was accepted, but the item there is named %s" % (variant, it.text, c.name))
            del stack[len(stack) - n:]
            produced = []
            for i, e in enumerate(eff):
                d = outs[i] if outs else None
                if isinstance(e, int) and (d is None or d == "__"):
                    c = Cell(args[e].name, args[e].uid)
                elif isinstance(e, int):
                    c = Cell(d, args[e].uid)
                else:
                    c = new(d)
                produced.append(c)
            stack += produced
        want = [c.name for c in produced]
        if pushed is None:
            raise Bad("C20", "`%s` carries no annotation of what it pushes" % it.text)
        if pushed != want:
            raise Bad("C20", "variant %s, branches %s: `%s` is annotated as pushing %s, but pushes the items named %s" % (variant, "".join(trace), it.text, pushed, want))
        if altpushed != want_alt:
            raise Bad("C20", "variant %s: `%s` is annotated as pushing %s to the alt stack, but pushes %s" % (variant, it.text, altpushed, want_alt))
        seen += 1 + len(want)
    return seen, "".join(trace)


def source_check(p, log):
    n = 0
    items = [it for it in p.items if it.kind not in ("text", "none")]
    for it, o in zip(items, log):
        if not o[3]:
            raise Bad("C20", "`%s` carries no source text" % it.text)
        for part in o[3].split(","):
            w, _, h = part.partition(":")
            if norm(bytes.fromhex(h).decode()) != norm(it.text):
                raise Bad("C20", "the operation of `%s` is annotated (width %s) with the source text `%s`" % (it.text, w, bytes.fromhex(h).decode()[:200]))
            n += 1
    return n


def run(pid, tier, seed, env, rundir, target, only=None):
    repo = os.environ.get("VERIF_REPO", "/repo")
    env = dict(env, CARGO_TARGET_DIR=os.path.join(target, "m"))
    quick = tier == "quick"
    nprog = 480 if quick else 8000
    per_batch = 480 if quick else 800
    m = {"evaluations": 0, "distinct_nontrivial": 0, "events": 0, "trivial": 0, "classes": {}, "known": {}, "samples": [], "phases": {}, "notes": [],
         "rule": "random well-formed script functions (pushes of every type, 80 opcodes, depth_of/PICK/ROLL, alt stack, transmute, nested conditionals, up to 8 variants, stacks of different height per variant), "
                 "compiled with the real macro and run; a program is non-trivial if it emits at least 5 operations; distinct by source text"}
    violations, inconclusive = [], []
    distinct = set()
    paths = set()
    t0 = time.time()
    stats = {"programs": 0, "operations compared": 0, "input operations compared": 0, "annotations compared": 0, "source texts compared": 0, "executions": 0,
             "mutants rejected": 0, "mutant passes": 0, "programs rejected": 0}
    first = 0
    limit = 600 if quick else 5400
    while first < nprog and not violations and not inconclusive and time.time() - t0 < limit:
        ids = [int(only.split("#")[1])] if only else list(range(first, min(nprog, first + per_batch)))
        first += per_batch
        progs = {i: (gen.uneven if i % 10 == 9 else gen.scale if i % 40 == 25 else gen.program)(random.Random("%d/%d" % (seed, i)), i) for i in ids}
        crate = os.path.join(rundir, "crate")
        shutil.rmtree(crate, ignore_errors=True)
        os.makedirs(os.path.join(crate, "src", "bin"))
        open(os.path.join(crate, "Cargo.toml"), "w").write(CARGO % repo)
        shutil.copy(os.path.join(VERIF, "macro", "Cargo.lock"), crate)
        nb = 1 if only else 16
        for attempt in range(5):
            bins = [ids[k::nb] for k in range(nb)]
            spans = {}
            for k, b in enumerate(bins):
                text, sp = layout([module(progs[i], i % 3 == 0) for i in b])
                text += "fn main() { %s }\n" % " ".join("m%d::run();" % i for i in b)
                open(os.path.join(crate, "src", "bin", "b%02d.rs" % k), "w").write(text)
                spans[k] = list(zip(sp, b))
            rc, msgs, err = cargo(["--bins", "--keep-going"], crate, env, 400 if quick else 1800)
            if rc is None or rc == 0:
                break
            bad = {}
            for k in range(nb):
                for line, msg in errors_by_line(msgs, "b%02d" % k).items():
                    for (a, z), i in spans[k]:
                        if a <= line <= z:
                            bad[i] = msg
            if not bad:
                inconclusive.append("the generated programs do not build: " + err[-600:])
                break
            stats["programs rejected"] += len(bad)
            if pid == "C20":
                for i, msg in sorted(bad.items())[:5]:
                    violations.append({"case": "program#%d" % i, "input": gen.function(progs[i], progs[i].items), "detail": "a correct script function is rejected: %s" % msg})
                break
            # C19 is about the functions that are accepted
            ids = [i for i in ids if i not in bad]
            if not ids:
                inconclusive.append("every generated program is rejected: " + list(bad.values())[0])
                break
        if rc is None:
            inconclusive.append(err)
        elif rc != 0 and not violations and not inconclusive:
            inconclusive.append("the generated programs do not settle")
        if rc != 0:
            break
        for k in range(nb):
            exe = os.path.join(target, "m", "debug", "b%02d" % k)
            try:
                out = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
            except subprocess.TimeoutExpired:
                inconclusive.append("running the generated scripts exceeded 300 s")
                break
            logs, cur, lastid = {}, None, None
            for l in out.stdout.decode().split("\n"):
                if l.startswith("P "):
                    a = l.split(" ")
                    lastid = int(a[1])
                    cur = (lastid, a[2], a[3])
                    logs[cur] = ([], None)
                elif l.startswith("O "):
                    a = l.split(" ")
                    logs[cur][0].append((strip_len(bytes.fromhex(a[1])), parse_names(a[2]), parse_names(a[3]), a[4], a[5]))
                elif l.startswith("W "):
                    logs[cur] = (logs[cur][0], strip_len(bytes.fromhex(l[2:])))
            if out.returncode != 0:
                i = lastid if lastid is not None else bins[k][0]
                violations.append({"case": "program#%d" % i, "input": gen.function(progs[i], progs[i].items),
                                   "detail": "running the generated code failed after program %d: %s" % (i, out.stderr.decode(errors="replace")[-400:])})
                break
            for i in bins[k]:
                p = progs[i]
                src = gen.function(p, p.items)
                m["evaluations"] += 1
                h = hashlib.sha256(src.encode()).digest()[:8]
                for key, n in p.stats.items():
                    m["classes"][key] = m["classes"].get(key, 0) + n
                key = "%d variants" % len(p.variants)
                m["classes"][key] = m["classes"].get(key, 0) + 1
                try:
                    for s in range(2):
                        log, whole = logs[(i, "main", str(s))]
                        if len(log) >= 5:
                            distinct.add(h)
                        elif s == 0:
                            m["trivial"] += 1
                        if pid == "C19":
                            stats["operations compared"] += check_ops(p, s, log, whole)
                            if i % 3 == 0:
                                tl, tw = logs[(i, "twin", str(s))]
                                check_ops(p, s, tl, tw)
                                if [x[0] for x in tl] != [x[0] for x in log]:
                                    raise Bad("C19", "debug=false changes the operations")
                                stats["operations compared"] += len(tl)
                        else:
                            # the operations are C19's; here they only need to be the written kinds so that the run makes sense
                            exp = expected(p.items, s)
                            if len(exp) != len(log) or any((a[1] != parse_op(b[0]) if a[1][0] == "op" else parse_op(b[0])[0] != "push") for a, b in zip(exp, log)):
                                raise Bad("C20", "the annotated operations are not the written ones (%d written, %d emitted)" % (len(exp), len(log)))
                            stats["source texts compared"] += source_check(p, log)
                            nif = sum(1 for it in p.items if it.op == "OP_IF")
                            for v in p.names:
                                for e in range(min(12, 2 ** nif) if quick else min(40, 3 * 2 ** nif)):
                                    r = random.Random("%d/%d/%s/%d" % (seed, i, v, e))
                                    truth = dict(r.choice(p.variants[v])) if p.variants else {}
                                    for c in ("c0", "c1", "c2"):
                                        if p.variants:
                                            truth.setdefault(c, r.random() < 0.5)
                                    n, tr = execute(p, log, v, truth, r)
                                    stats["annotations compared"] += n
                                    stats["executions"] += 1
                                    paths.add((i, v, tr))
                    for v in p.names:
                        for tag in ["in"] + (["twinin"] if i % 3 == 0 else []):
                            log, _ = logs[(i, tag, v)]
                            vals = p.input_values[v]
                            got = [(parse_op(o[0])) for o in log]
                            if pid == "C19":
                                if got != [("push", e[1]) for _, e in vals]:
                                    raise Bad("C19", "the inputs of %s push %s, the fields are %s" % (v, [o[0].hex() for o in log], [(n, e[1].hex()) for n, e in vals]))
                                stats["input operations compared"] += len(log)
                            elif tag == "in":
                                for (n, _), o in zip(vals, log):
                                    if o[1] != [n] or o[2] != []:
                                        raise Bad("C20", "input field %s of %s is annotated as pushing %s" % (n, v, o[1]))
                                    stats["annotations compared"] += 1
                except Bad as b:
                    violations.append({"case": "program#%d" % i, "input": src, "detail": b.msg})
                except (KeyError, ValueError, IndexError) as b:
                    violations.append({"case": "program#%d" % i, "input": src, "detail": "the emitted operations do not run as written: %s %r; emitted %s" % (type(b).__name__, b, {k2[1:]: [o[0].hex() for o in v2[0]] for k2, v2 in logs.items() if k2[0] == i})})
                if len(m["samples"]) < 6 and len(p.items) > 6 and i % 7 == 3:
                    m["samples"].append(src)
        stats["programs"] += len(ids)
        if pid == "C20" and not violations and not inconclusive:
            mut = []
            for i in ids:
                r = random.Random("%d/%d/mutants" % (seed, i))
                for what, its in gen.mutants(r, progs[i])[: (3 if quick else 4)]:
                    inputs = None
                    if isinstance(its, tuple):
                        its, inputs = its
                    mut.append((i, what, gen.function(progs[i], its, inputs=inputs), progs[i]))
            rejected = reject(mut, crate, env, stats, violations, inconclusive, m["classes"], nb)
            m["evaluations"] += rejected
        if only:
            break
    m["distinct_nontrivial"] = len(distinct) + (stats["mutants rejected"] if pid == "C20" else 0)
    keys = ["programs", "programs rejected"] + (["operations compared", "input operations compared"] if pid == "C19" else
                           ["annotations compared", "source texts compared", "executions", "mutants rejected", "mutant passes"])
    m["extra"] = {"observed": dict({k: stats[k] for k in keys}, **({"distinct (program, variant, branch path) executed": len(paths)} if pid == "C20" else {}))}
    m["events"] = sum(stats[k] for k in keys if not k.startswith("programs"))
    m["phases"] = {"programs": {"planned": nprog, "run": stats["programs"], "secs": round(time.time() - t0, 2)}}
    return m, violations, inconclusive


def reject(mut, crate, env, stats, violations, inconclusive, classes, nb):
    """every mutant must be a compile error; those not reported are compiled again without the reported ones, until nothing changes
    (errors of the macro hide those of later compiler passes)"""
    left = list(range(len(mut)))
    done = 0
    for f in os.listdir(os.path.join(crate, "src", "bin")):
        os.unlink(os.path.join(crate, "src", "bin", f))
    for _ in range(6):
        parts = [left[k::8] for k in range(8)]
        parts = [x for x in parts if x]
        spans = {}
        for f in os.listdir(os.path.join(crate, "src", "bin")):
            os.unlink(os.path.join(crate, "src", "bin", f))
        for k, part in enumerate(parts):
            mods = []
            for j in part:
                p = mut[j][3]
                mods.append("pub mod m%d {\nuse bitcoin_cash::{self, Opcode::*, ByteArray, Integer, Ops, BitcoinCode};\nuse bitcoin_cash as bch;\n#[derive(Clone)] pub struct P { %s }\n%s\n}" % (
                    j, ", ".join("pub %s: %s" % (f, ty) for f, ty, _, _, _ in p.params), mut[j][2]))
            text, sp = layout(mods)
            text += "fn main() {}\n"
            open(os.path.join(crate, "src", "bin", "r%02d.rs" % k), "w").write(text)
            spans["r%02d" % k] = list(zip(sp, part))
        rc, msgs, err = cargo(["--bins", "--keep-going"], crate, env, 600)
        stats["mutant passes"] += 1
        if rc is None:
            inconclusive.append("compiling the mutants exceeded the time limit")
            return done
        gone = set()
        for t, sp in spans.items():
            errs = errors_by_line(msgs, t)
            for (a, z), j in sp:
                if any(a <= l <= z for l in errs):
                    gone.add(j)
        for j in gone:
            classes["mutant: " + mut[j][1]] = classes.get("mutant: " + mut[j][1], 0) + 1
        done += len(gone)
        stats["mutants rejected"] += len(gone)
        left = [j for j in left if j not in gone]
        if not left:
            return done
        if not gone:
            if rc == 0:
                for j in left[:5]:
                    violations.append({"case": "program#%d" % mut[j][0], "input": mut[j][2], "detail": "a wrong script function compiles (%s)" % mut[j][1]})
            else:
                inconclusive.append("mutants neither rejected nor built: " + err[-500:])
            return done
    inconclusive.append("the mutants did not settle")
    return done

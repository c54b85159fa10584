"""C26: which script functions pass the type checker.

Small and random script functions are compiled with the real macro; the compiler's own event log (--message-format=json) is the
observed trace: a function is rejected if an error lies in its lines.  Ill-typed functions must be rejected, well-typed ones accepted,
according to the types of Bitcoin Cash's opcodes (macro/gen.py)."""
import hashlib, os, random, shutil, subprocess, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "macro"))
import gen
from gen import I, B, Y, EFF
import macro_check as mc

TYPES = [I, B, Y]
FIELD = {I: ["i32", "Integer"], B: ["bool"], Y: ["ByteArray", "Pubkey", "Sha1", "Ripemd160", "Sha256", "Sha256d", "Hash160", "TxPreimage"]}
PUSH = {I: ["5", "-1", "Integer::new(300).unwrap()", "Integer::new(3).unwrap() + 4", "params.n", "params.n * 2", "100_000i32"],
        B: ["true", "false", "!params.b", "params.b", "1 == 1"],
        Y: ["params.y.clone()", "{ params.y.clone() }", '&b"ab"[..]', "[1u8, 2]", '{ b"x".to_vec() }', '{ ByteArray::new("n", vec![1, 2]) }', "{ Pubkey::default() }",
            "{ Sha256d::new([3; 32]) }", "{ Hash160::new([3; 20]) }", "{ TxPreimage::empty_with_script(&Default::default()) }", "params.y.len().to_string().into_bytes()"]}
EATER = {I: ["OP_1ADD", "OP_NEGATE", "OP_ABS", "OP_0NOTEQUAL", "OP_1SUB"], B: ["OP_NOT"], Y: ["OP_SHA256", "OP_HASH160", "OP_BIN2NUM", "OP_REVERSEBYTES"]}
PRE = "use bitcoin_cash::{self, Opcode::*, ByteArray, Integer, Pubkey, Sha1, Ripemd160, Sha256, Sha256d, Hash160, TxPreimage, Hashed};\npub struct P { pub n: i32, pub b: bool, pub y: ByteArray }\n"


class Case:
    def __init__(self, kind, good, text, params=None):
        self.kind, self.good, self.text, self.params = kind, good, text, params


def fn(inputs, body):
    return "#[bitcoin_cash::script(In)]\npub fn s(params: P, %s) {\n    %s\n}\n" % (", ".join("%s: %s" % x for x in inputs), "\n    ".join(body))


def fits(ins, combo):
    for i, (t, c) in enumerate(zip(ins, combo)):
        if t in TYPES and c != t or t == "=" and c != combo[i - 1]:
            return False
    return True


def matrix(rng, full):
    """every opcode with every combination of argument types, and for the right ones what each result can be used as"""
    out = []
    for op, (ins, outs) in sorted(EFF.items()):
        combos = [[]]
        for _ in ins:
            combos = [c + [t] for c in combos for t in TYPES]
        if not full and len(combos) > 27:
            combos = rng.sample(combos, 12) + [c for c in combos if fits(ins, c)][:3]
        for c in combos:
            if not ins or op == "OP_VERIFY" and c != [B]:
                continue  # (OP_VERIFY of other types: documented and declared boolean, but consensus takes anything)
            fields = [("a%d" % i, rng.choice(FIELD[t])) for i, t in enumerate(c)]
            args = ["__" if rng.random() < 0.15 else n for n, _ in fields]
            call = op if rng.random() < 0.2 else "%s(%s)" % (op, ", ".join(args))
            out.append(Case("%s arguments" % op, fits(ins, c), fn(fields, [call + ";"])))
        right = [c for c in combos if fits(ins, c)] or [[]]
        if not full and len(right) > 4:
            right = rng.sample(right, 4)
        for c in right:
            fields = [("a%d" % i, rng.choice(FIELD[t])) for i, t in enumerate(c)]
            call = op if not ins else "%s(%s)" % (op, ", ".join(n for n, _ in fields))
            for k, o in enumerate(outs):
                rt = c[o] if isinstance(o, int) else o
                for want in TYPES:
                    named = rng.random() < 0.5
                    names = ["r%d" % j for j in range(len(outs))]
                    let = call + ";" if not named else "let %s = %s;" % (names[0] if len(outs) == 1 else "(%s)" % ", ".join(names), call)
                    eat = rng.choice(EATER[want])
                    body = [let] + ["OP_DROP;"] * (len(outs) - 1 - k) + [("%s(%s);" % (eat, names[k])) if named and rng.random() < 0.7 else eat + ";"]
                    out.append(Case("%s result %d" % (op, k), rt == want, fn(fields, body)))
    return out + shared_names(rng)


def vfn(attr, inputs, body):
    ins = ", ".join('%s%s: %s' % ('#[variant(%s)] ' % v if v else "", n, t) for v, n, t in inputs)
    return "#[bitcoin_cash::script(In%s)]\npub fn s(params: P, %s) {\n    %s\n}\n" % (attr, ins, "\n    ".join(body))


def shared_names(rng):
    """items of different types that share one name: each use means the item that is on the stack there"""
    out = []
    EX = {I: "5i32", B: "true", Y: 'b"ab"[..]'}
    two = ', A = "c", B = "!c"'
    for t in TYPES:
        f = FIELD[t][0]
        for u in TYPES:
            if u == t:
                continue
            g = FIELD[u][0]
            for want in (t, u):
                eat, eat2 = rng.choice(EATER[want]), rng.choice(EATER[u])
                # an item shadows an input, is dropped, and the input is used
                out.append(Case("shared name: input", want == t, fn([("x", f)], ["let x = %s;" % EX[u], "OP_DROP(x);", "%s(x);" % eat])))
                # .. an item pushed before
                out.append(Case("shared name: push", want == t, fn([("i", "bool")], ["let x = %s;" % EX[t], "let x = %s;" % EX[u], "OP_DROP(x);", "%s(x);" % eat])))
                # .. from the alt stack
                out.append(Case("shared name: alt", want == t, fn([("x", f)], ["OP_TOALTSTACK(x);", "let x = %s;" % EX[u], "OP_DROP(x);", "let x = OP_FROMALTSTACK(x);", "%s(x);" % eat])))
                # .. the result of an operation
                out.append(Case("shared name: result", want == t, fn([("x", f)], ["let (x, y) = OP_DUP(x);", "OP_DROP(y);", "let z = %s;" % EX[u], "OP_DROP;", "%s(x);" % eat])))
                # a depth
                out.append(Case("shared name: picked", want == t, fn([("x", f)], ["let y = %s;" % EX[u], "let x = %s;" % EX[u], "OP_DROP;", "let d = depth_of(x);", "let x = OP_PICK(d);", "%s(x);" % eat])))
                # the same name in both branches
                out.append(Case("shared name: branches", want == u, vfn(two, [(None, "x", f), (None, "c", "bool")], [
                    "OP_IF(c);", "let x = %s;" % EX[u], "%s(x);" % eat, "OP_DROP;", "OP_ELSE;", "OP_DROP;" if rng.random() < 0.5 else "OP_DROP(x);", "1;", "OP_DROP;", "OP_ENDIF;"])))
                out.append(Case("shared name: else", want == t, vfn(two, [(None, "x", f), (None, "c", "bool")], [
                    "OP_IF(c);", "let x = %s;" % EX[u], "%s(x);" % eat2, "OP_DROP;", "OP_ELSE;", "%s(x);" % eat, "OP_ENDIF;"])))
                # inputs of two variants
                first = rng.random() < 0.5
                out.append(Case("shared name: variants", want == t, vfn(two, [("A", "x", f), ("B", "x", g), (None, "c", "bool")], [
                    "OP_IF(c);", "%s(x);" % (eat if first else rng.choice(EATER[t])), "OP_ELSE;", "%s(x);" % eat2, "OP_ENDIF;"]) if first else
                    vfn(two, [("A", "x", g), ("B", "x", f), (None, "c", "bool")], ["OP_IF(c);", "%s(x);" % eat2, "OP_ELSE;", "%s(x);" % eat, "OP_ENDIF;"])))
        # a depth is a number, whatever the name it takes
        out.append(Case("shared name: depth", True, fn([("x", f)], ["let x = depth_of(x);", "let x = OP_PICK(x);", "%s(x);" % rng.choice(EATER[t])])))
    return out


def values(rng):
    """what pushes, inputs, moved items, transmuted items and joined branches can be used as"""
    out = []
    for t in TYPES:
        for want in TYPES:
            ok = t == want
            eat = lambda n: "%s(%s);" % (rng.choice(EATER[want]), n)
            for e in PUSH[t]:
                out.append(Case("push of %s" % t, ok, fn([], ["let x = %s;" % e, eat("x")])))
            for ty in FIELD[t]:
                out.append(Case("input %s" % ty, ok, fn([("x", ty)], [eat("x")])))
                for src in TYPES:
                    out.append(Case("transmute from %s to %s" % (src, ty), ok, fn([("x", rng.choice(FIELD[src])), ("z", "i32")], ["transmute(x, %s);" % ty, "OP_DROP(z);", eat("x")])))
                f = rng.choice(FIELD[rng.choice(TYPES)])
                out.append(Case("transmute of another item", ok, fn([("x", ty), ("z", f)], ["transmute(z, %s);" % rng.choice(FIELD[want]), "OP_DROP(z);", eat("x")])))
                out.append(Case("alt stack", ok, fn([("w", f), ("x", ty)], ["OP_TOALTSTACK(x);", "OP_DROP(w);", "OP_FROMALTSTACK(x);", eat("x")])))
                for op in ("OP_PICK", "OP_ROLL"):
                    g = rng.choice(FIELD[rng.choice(TYPES)])
                    nm = rng.random() < 0.5
                    out.append(Case("item moved by %s" % op, ok, fn([("w", f), ("x", ty), ("v", g)], ["let d = depth_of(x);", ("let m = %s(d);" if nm else "%s(d);") % op, eat("m" if nm else "x")])))
                    out.append(Case("item moved by %s with an offset" % op, ok, fn([("x", ty), ("w", f), ("v", g)], ["depth_of_offset(w, 1);", ("let m = %s;" if nm else "%s;") % op, eat("m" if nm else "x")])))
                out.append(Case("depth", want == I, fn([("x", ty)], ["let d = depth_of(x);", eat("d")])))
                el = rng.random() < 0.5
                e1, e2 = rng.choice(PUSH[t]), rng.choice(PUSH[t])
                out.append(Case("item joined after a conditional", ok, fn([("c", rng.choice(FIELD[rng.choice(TYPES)]))], ["OP_IF(c);", "let x = %s;" % e1, "OP_ELSE;", "let x = %s;" % e2, "OP_ENDIF;", eat("x")])))
                out.append(Case("item of outside in a branch", ok, fn([("x", ty), ("c", f)], ["OP_IF(c);"] + (["OP_DROP(x);", "OP_ELSE;"] if el else []) + [eat("x")] + (["OP_DROP;"] if el and want != B else []) + ["OP_ENDIF;"])
                               ) if el else Case("item of outside in a branch", ok, fn([("x", ty), ("c", f)], ["OP_IF(c);", "OP_DUP(x);", eat("x"), "OP_ENDIF;"])))
                for op in ("OP_PICK", "OP_ROLL"):
                    out.append(Case("depth for %s" % op, t == I, fn([("y", "ByteArray"), ("x", ty)], ["%s(x);" % op])))
    return out


# observers: net effect none, with the types (topmost first) they need
OBS = [("OP_DUP; OP_1ADD; OP_DROP;", [I]), ("OP_DUP; OP_NOT; OP_DROP;", [B]), ("OP_DUP; OP_SHA256; OP_DROP;", [Y]), 
       ("OP_2DUP; OP_ADD; OP_DROP;", [I, I]), ("OP_2DUP; OP_CAT; OP_DROP;", [Y, Y]), ("OP_2DUP; OP_SPLIT; OP_2DROP;", [I, Y]), ("OP_2DUP; OP_BOOLAND; OP_DROP;", [B, B]),
       ("OP_2DUP; OP_EQUALVERIFY;", ["=", "="]), ("OP_2DUP; OP_EQUAL; OP_DROP;", ["=", "="]), ("OP_2DUP; OP_NUM2BIN; OP_DROP;", [I, I]), ("OP_2DUP; OP_CHECKSIGVERIFY;", [Y, Y]),
       ("OP_3DUP; OP_WITHIN; OP_DROP;", [I, I, I]), ("OP_3DUP; OP_CHECKDATASIGVERIFY;", [Y, Y, Y]), ("OP_DUP; OP_CHECKLOCKTIMEVERIFY; OP_DROP;", [I]),
       ("OP_DUP; OP_SIZE; OP_2DROP;", [Y]), ("OP_2DUP; OP_NUMEQUALVERIFY;", [I, I])]


def inserted(rng, p, good):
    """program p with an observer inserted somewhere: text or None"""
    for _ in range(30):
        at, ts = rng.choice(p.marks)
        obs, need = rng.choice(OBS)
        if len(ts) < len(need):
            continue
        have = [t for t, _ in ts[:len(need)]]
        ok = len(set(have)) == 1 if need[0] == "=" else have == need
        if ok != good:
            continue
        its = [x.copy() for x in p.items]
        its[at:at] = [gen.Item("op", s.strip() + ";", op="") for s in obs.split(";") if s.strip()]
        return "%s on %s" % (obs, have), gen.function(p, its)
    return None


def run(tier, seed, env, rundir, target, only=None):
    repo = os.environ.get("VERIF_REPO", "/repo")
    env = dict(env, CARGO_TARGET_DIR=os.path.join(target, "m"))
    quick = tier == "quick"
    t0 = time.time()
    m = {"evaluations": 0, "distinct_nontrivial": 0, "events": 0, "trivial": 0, "classes": {}, "known": {}, "samples": [], "phases": {}, "notes": [],
         "rule": "script functions compiled by the real macro: every opcode with every combination of argument types and every use of its results, pushes, inputs, moved, "
                 "transmuted and joined items, and random programs with one well- or ill-typed observer inserted; every case is non-trivial, distinct by source text"}
    violations, inconclusive = [], []
    rounds = 1 if quick else 8
    stats = {"accepted as meant": 0, "rejected as meant": 0, "compiler passes": 0, "opcode behaviours compared": 0, "data types compared": 0}
    distinct = set()
    crate = os.path.join(rundir, "crate")
    planned = 0
    for rd in range(rounds):
        rng = random.Random("%d/types/%d" % (seed, rd))
        cases = matrix(rng, not quick or rd > 0) + values(rng)
        for i in range(300 if quick else 700):
            p = (gen.scale if i % 20 == 7 else gen.program)(random.Random("%d/types/%d/%d" % (seed, rd, i)), i)
            pr = "#[derive(Clone)] pub struct P { %s }\n" % ", ".join("pub %s: %s" % (f, ty) for f, ty, _, _, _ in p.params)
            for good in (True, False):
                x = inserted(rng, p, good)
                if x:
                    cases.append(Case("observer in a random program", good, x[1], pr))
                    if not good and len(m["samples"]) < 3 and len(p.items) < 14:
                        m["samples"].append("%s: %s" % (x[0], x[1]))
        ids = list(range(len(cases)))
        planned += len(cases)
        if only and not only.startswith("type#"):
            return m, violations, ["unknown case " + only]
        if only:
            a, b = only.split("#")[1].split(".")
            if int(a) != rd:
                continue
            ids = [int(b)]
        shutil.rmtree(crate, ignore_errors=True)
        os.makedirs(os.path.join(crate, "src", "bin"))
        open(os.path.join(crate, "Cargo.toml"), "w").write(mc.CARGO % repo)
        shutil.copy(os.path.join(mc.VERIF, "macro", "Cargo.lock"), crate)
        if rd == 0 and not only:
            behaviours(crate, env, target, stats, violations, inconclusive)
            joined_types(crate, env, m, inconclusive)
        left, rejected, good_rejected = list(ids), {}, {}
        for attempt in range(6):
            for f in os.listdir(os.path.join(crate, "src", "bin")):
                os.unlink(os.path.join(crate, "src", "bin", f))
            spans = {}
            nb = 24
            for k in range(nb):
                part = left[k::nb]
                if not part:
                    continue
                mods = []
                for j in part:
                    c = cases[j]
                    pre = PRE if c.params is None else "use bitcoin_cash::{self, Opcode::*, ByteArray, Integer, Ops, BitcoinCode};\nuse bitcoin_cash as bch;\n" + c.params
                    mods.append("pub mod m%d {\n%s%s}" % (j, pre, c.text))
                text, sp = mc.layout(mods)
                open(os.path.join(crate, "src", "bin", "t%02d.rs" % k), "w").write(text + "fn main() {}\n")
                spans["t%02d" % k] = list(zip(sp, part))
            rc, msgs, err = mc.cargo(["--bins", "--keep-going"], crate, env, 500)
            stats["compiler passes"] += 1
            if rc is None:
                inconclusive.append(err)
                break
            gone = {}
            for t, sp in spans.items():
                for line, msg in mc.errors_by_line(msgs, t).items():
                    for (a, z), j in sp:
                        if a <= line <= z:
                            gone.setdefault(j, msg)
            rejected.update(gone)
            left = [j for j in left if j not in gone]
            if rc == 0 or not left:
                break
            if not gone:
                inconclusive.append("functions neither rejected nor built: " + err[-500:])
                break
        else:
            inconclusive.append("the verdicts did not settle")
        if inconclusive:
            break
        for j in ids:
            c = cases[j]
            m["evaluations"] += 1
            key = "%s, %s" % (c.kind.split(" ", 1)[1] if c.kind.startswith("OP_") else c.kind, "well-typed" if c.good else "ill-typed")
            m["classes"][key] = m["classes"].get(key, 0) + 1
            distinct.add(hashlib.sha256(c.text.encode()).digest()[:8])
            if c.good and j in rejected:
                violations.append({"case": "type#%d.%d" % (rd, j), "input": c.text, "detail": "a well-typed script function (%s) is rejected: %s" % (c.kind, rejected[j])})
            elif not c.good and j not in rejected:
                violations.append({"case": "type#%d.%d" % (rd, j), "input": c.text, "detail": "an ill-typed script function (%s) is accepted" % c.kind})
            else:
                stats["accepted as meant" if c.good else "rejected as meant"] += 1
        if violations:
            break
    m["distinct_nontrivial"] = len(distinct)
    m["extra"] = {"observed": stats}
    m["events"] = sum(v for k, v in stats.items() if k != "compiler passes")
    m["phases"] = {"functions": {"planned": planned, "run": m["evaluations"], "secs": round(time.time() - t0, 2)}}
    return m, violations, inconclusive


def behaviours(crate, env, target, stats, violations, inconclusive):
    """the declared types of each opcode, and the declared type of each pushed value"""
    text = ["#![allow(warnings)]\nuse bitcoin_cash::{Opcode, Opcode::*, ByteArray, Integer, Pubkey, Sha1, Ripemd160, Sha256, Sha256d, Hash160, BitcoinDataType, DataType, Hashed};\nfn main() {"]
    ops = sorted(EFF)
    for op in ops:
        text.append('    { let b = %s.behavior(); println!("B %s|{:?}|{:?}", b.input_types, b.output_types); }' % (op, op))
    vals = [("Integer::new(5).unwrap()", "Integer"), ("5i32", "Integer"), ("(Integer::new(5).unwrap() + 1)", "Integer"), ("true", "Boolean"),
            ("b\"abc\"[..]", "ByteArray(None) ByteArray(Some(3))"), ("ByteArray::from(&b\"abc\"[..])", "ByteArray(None) ByteArray(Some(3))"), ("Pubkey::default()", "ByteArray(None) ByteArray(Some(33))"),
            ("Sha1::new([1; 20])", "ByteArray(Some(20))"), ("Ripemd160::new([1; 20])", "ByteArray(Some(20))"), ("Hash160::new([1; 20])", "ByteArray(Some(20))"),
            ("Sha256::new([1; 32])", "ByteArray(Some(32))"), ("Sha256d::new([1; 32])", "ByteArray(Some(32))")]
    for e, _ in vals:
        text.append('    println!("V {:?}", (%s).to_data_type());' % e)
    open(os.path.join(crate, "src", "bin", "behave.rs"), "w").write("\n".join(text + ["}", ""]))
    rc, msgs, err = mc.cargo(["--bin", "behave"], crate, env, 500)
    if rc != 0:
        inconclusive.append("the behaviour table does not build: %s %s" % (err[-300:], [x["message"] for _, x in msgs if x["level"] == "error"][:3]))
        return
    p = subprocess.run([os.path.join(target, "m", "debug", "behave")], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    lines = p.stdout.decode().split("\n")
    if p.returncode:
        violations.append({"case": "behaviours", "input": "", "detail": "asking for the declared behaviours failed: " + p.stderr.decode()[-300:]})
        return
    R = {I: "Integer", B: "Boolean", Y: "ByteArray(None)", "*": "Generic", "=": "Generic"}
    SZ = {"OP_RIPEMD160": 20, "OP_SHA1": 20, "OP_HASH160": 20, "OP_SHA256": 32, "OP_HASH256": 32}
    got = dict(l[2:].split("|", 1) for l in lines if l.startswith("B "))
    for op in ops:
        ins, outs = EFF[op]
        o = [R[ins[x]] if isinstance(x, int) else ("ByteArray(Some(%d))" % SZ[op] if op in SZ else R[x]) for x in outs]
        want = "[%s]|[%s]" % (", ".join(R[x] for x in ins), ", ".join(o))
        stats["opcode behaviours compared"] += 1
        if got.get(op) != want:
            violations.append({"case": "behaviours", "input": op, "detail": "declared types of %s: %s, meant %s" % (op, got.get(op), want)})
    got = [l[2:] for l in lines if l.startswith("V ")]
    for (e, want), g in zip(vals, got):
        stats["data types compared"] += 1
        if g not in (want, *want.split(" ")):
            violations.append({"case": "behaviours", "input": e, "detail": "data type of %s: %s, meant %s" % (e, g, want)})


def joined_types(crate, env, m, inconclusive):
    """the known finding variant-types, on fixed programs: an opcode after branches that leave items of different types is checked against one variant only"""
    progs = ["#[bitcoin_cash::script(In, A = \"c\", B = \"!c\")]\npub fn s(params: P, c: bool) {\n    OP_IF(c);\n    %s\n    OP_ELSE;\n    %s\n    OP_ENDIF;\n    OP_1ADD;\n    OP_DROP;\n}\n" % ab
             for ab in (("true;", "5;"), ("let x = true;", "let x = 5;"))]
    for i, t in enumerate(progs):
        open(os.path.join(crate, "src", "bin", "joined%d.rs" % i), "w").write("#![allow(warnings)]\n" + PRE + t + "fn main() {}\n")
    rc, msgs, err = mc.cargo(["--bin", "joined0", "--bin", "joined1", "--keep-going"], crate, env, 500)
    if rc is None:
        inconclusive.append(err)
        return
    bad = {t for t, x in msgs if x["level"] == "error"}
    n = sum("joined%d" % i not in bad for i in range(len(progs)))
    if n:
        m["known"]["variant-types: an opcode applied to items that the variants' branches leave with different types (OP_IF(c); true; OP_ELSE; 5; OP_ENDIF; OP_1ADD) is type-checked "
                   "against the alphabetically last variant only, so ill-typed functions compile"] = n

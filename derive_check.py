"""C23, generated half: structures are generated, compiled with the real derive macro and run; what they wrote and read is
logged and compared offline with the wire form computed here, from the structure's description alone."""
import hashlib, os, random, shutil, subprocess, time
from macro_check import cargo, errors_by_line, layout

VERIF = os.path.dirname(os.path.abspath(__file__))
CARGO = """[package]
name = "deriverun"
version = "0.1.0"
edition = "2018"

[workspace]

[dependencies]
bitcoin-cash = { path = "%s/bitcoin-cash" }
serde = { version = "1.0", features = ["derive"] }

[profile.dev]
debug = 0
incremental = false
"""
HEAD = """#![allow(warnings)]
use bitcoin_cash as bch;
use bitcoin_cash::{BitcoinCode, ByteArray, Hashed, Op, Script, Sha256d, Hash160, Sha256, Hashed as _, TxOutpoint, TxOutput};
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn ba(s: &str) -> ByteArray { unhex(s).into() }
fn f20(s: &str) -> [u8; 20] { let mut a = [0; 20]; a.copy_from_slice(&unhex(s)); a }
fn f32_(s: &str) -> [u8; 32] { let mut a = [0; 32]; a.copy_from_slice(&unhex(s)); a }
#[derive(Clone, Debug, PartialEq, Default)]
pub struct NoCodec(pub Option<u8>);
fn run<T: BitcoinCode + PartialEq + std::fmt::Debug + Clone>(tag: &str, v: T, stripped: T, wire: &str, tail: &str) {
    let ser = v.ser();
    println!("S {} {}", tag, hex(&ser));
    // decoding is tried on the wire form that was computed outside, whatever ser() gave
    let w = ba(wire);
    match T::deser(w.clone()) { Ok(x) => println!("D {} {}", tag, x == stripped), Err(e) => println!("D {} error {}", tag, e) }
    match T::deser_rest(w.clone().concat(ba(tail))) { Ok((x, rest)) => println!("R {} {} {}", tag, x == stripped, hex(&rest)), Err(e) => println!("R {} error {}", tag, e) }
    if !tail.is_empty() { println!("L {} {}", tag, T::deser(w.clone().concat(ba(tail))).is_err()); }
    let mut bad = vec![];
    let n = w.len();
    for k in 0..n { if n <= 400 || k < 200 || k + 200 >= n { if T::deser_rest(w[..k].to_vec().into()).is_ok() { bad.push(k.to_string()); } } }
    println!("T {} {}", tag, bad.join(","));
    if let Ok(x) = T::deser(ser.clone()) { println!("E {} {}", tag, hex(&x.ser())); }
}
fn list<T: BitcoinCode + PartialEq + std::fmt::Debug + Clone>(tag: &str, v: Vec<T>, stripped: Vec<T>) {
    let ser = bch::encode_bitcoin_code_all(v.iter());
    println!("A {} {}", tag, hex(&ser));
    match bch::decode_bitcoin_code_all::<T>(ser) { Ok(x) => println!("B {} {}", tag, x == stripped), Err(e) => println!("B {} error {}", tag, e) }
}
"""
INTS = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "u128": 16, "i128": 16}
# a field may be called anything
NAMES = ["data", "rest", "left", "right", "leftover", "item", "size", "len", "vec", "value", "parts", "array", "ser", "deser", "result", "byte_array",
         "split_idx", "r#type", "r#match", "name", "version", "inputs", "struct_name", "field", "x", "y", "z", "a1", "b2", "self_", "_under", "camelCase", "Ok_", "bitcoin_cash", "std_", "crate_"]
ATTRS = ["/// the documented field", "#[serde(skip)]", "#[serde(default)]", '#[serde(rename = "other")]', "#[allow(dead_code)]", '#[doc = "text"]', "#[cfg(not(no_such_cfg))]", "#[doc(hidden)]",
         "#[cfg_attr(not(no_such_cfg), allow(dead_code))]"]


def compact(n):
    if n < 0xfd:
        return bytes([n])
    if n <= 0xffff:
        return b"\xfd" + n.to_bytes(2, "little")
    if n <= 0xffffffff:
        return b"\xfe" + n.to_bytes(4, "little")
    return b"\xff" + n.to_bytes(8, "little")


class Struct:
    def __init__(self, name):
        self.name, self.fields, self.serde = name, [], False  # (name, type, skipped, attrs)


def ty(r, structs, depth=0):
    k = r.random()
    if k < 0.42:
        return ("int", r.choice(list(INTS)))
    if k < 0.5:
        return ("bool",)
    if k < 0.6:
        return ("bytes",)
    if k < 0.72:
        return (r.choice(["Sha256d", "Hash160", "Script", "TxOutpoint", "TxOutput"]),)
    if k < 0.86 and depth < 3:
        return ("vec", ty(r, structs, depth + 1))
    if structs:
        # (a structure whose wire form can be empty is not used as a list element: any count of them would decode)
        return ("struct", r.choice(structs))
    return ("int", "u16")


def rust(t):
    if t[0] == "int":
        return t[1]
    if t[0] == "bytes":
        return "ByteArray"
    if t[0] == "vec":
        return "Vec<%s>" % rust(t[1])
    if t[0] == "struct":
        return t[1].name
    if t[0] == "nocodec":
        return "NoCodec"
    return t[0]


def lit(h, f="ba"):
    return '%s("%s")' % (f, h.hex())


def value(r, t, depth=0):
    """(rust literal, the literal of what decoding gives, wire bytes)"""
    k = t[0]
    if k == "int":
        n = INTS[t[1]]
        signed = t[1][0] == "i"
        lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)
        v = r.choice([lo, hi, 0, 1, hi >> 1, r.randint(lo, hi), r.randint(lo, hi), 0x80 if n > 1 else 5])
        s = "(%d%s)" % (v, t[1]) if v != lo or not signed else "%s::MIN" % t[1]
        return s, s, v.to_bytes(n, "little", signed=signed)
    if k == "bool":
        v = r.random() < 0.5
        return ("true", "true", b"\1") if v else ("false", "false", b"\0")
    if k == "bytes":
        n = r.choice([0, 1, 2, 3, 5]) if depth or r.random() < 0.85 else r.choice([252, 253, 254, 255, 256, 300, 1000])
        if depth < 2 and r.random() < 0.02:
            c, n = r.randrange(256), r.choice([4096, 65534, 65535, 65536, 65600])
            l = "ByteArray::from(vec![%du8; %d])" % (c, n)
            return l, l, compact(n) + bytes([c]) * n
        b = bytes(r.randrange(256) for _ in range(n))
        l = lit(b)
        if r.random() < 0.3:
            l += '.named("n")'
        return l, lit(b), compact(n) + b
    if k == "Sha256d":
        b = r.randbytes(32)
        l = "Sha256d::new(%s)" % lit(b, "f32_")
        return l, l, b
    if k == "Hash160":
        b = r.randbytes(20)
        l = "Hash160::new(%s)" % lit(b, "f20")
        return l, l, b
    if k == "Script":
        ops, w = [], b""
        for _ in range(r.randrange(4)):
            if r.random() < 0.5:
                # a push of at least two bytes has one minimal form below 76
                b = r.randbytes(r.choice([2, 3, 20, 75, 76, 255, 256]))
                ops.append("Op::from(%s)" % lit(b))
                w += (bytes([len(b)]) if len(b) < 76 else b"\x4c" + bytes([len(b)]) if len(b) < 256 else b"\x4d" + len(b).to_bytes(2, "little")) + b
            else:
                o, c = r.choice([("OP_DUP", 0x76), ("OP_RETURN", 0x6a), ("OP_CHECKSIG", 0xac), ("OP_16", 0x60), ("OP_0", 0)])
                ops.append("Op::Code(bch::Opcode::%s)" % o)
                w += bytes([c])
        l = "Script::from_ops(vec![%s])" % ", ".join(ops)
        return l, l, compact(len(w)) + w
    if k == "TxOutpoint":
        a, b = value(r, ("Sha256d",)), value(r, ("int", "u32"))
        l = "TxOutpoint { tx_hash: %s, vout: %s }" % (a[0], b[0])
        return l, l, a[2] + b[2]
    if k == "TxOutput":
        a, b = value(r, ("int", "u64")), value(r, ("Script",))
        l = "TxOutput { value: %s, script: %s }" % (a[0], b[0])
        return l, l, a[2] + b[2]
    if k == "vec":
        n = r.choice([0, 1, 2, 3]) if depth else r.choice([0, 1, 2, 3, 4])
        rep = t[1][0] in ("int", "bool") and depth == 0 and r.random() < 0.15
        if rep:
            n = r.choice([252, 253, 254, 300]) if r.random() < 0.9 or INTS.get(t[1][-1], 1) > 2 else r.choice([65534, 65535, 65536])
            e = value(r, t[1], depth + 1)
            l = "vec![%s; %d]" % (e[0], n)
            return l, l, compact(n) + e[2] * n
        es = [value(r, t[1], depth + 1) for _ in range(n)]
        return ("vec![%s]" % ", ".join(e[0] for e in es), "vec![%s]" % ", ".join(e[1] for e in es), compact(n) + b"".join(e[2] for e in es))
    if k == "nocodec":
        return r.choice(["NoCodec(Some(%d))" % r.randrange(256), "NoCodec(None)"]), "NoCodec(None)", b""
    s = t[1]
    a, b, w = [], [], b""
    for n, ft, skipped, _ in s.fields:
        x = value(r, ft, depth + 1)
        a.append("%s: %s" % (n, x[0]))
        if skipped:
            b.append("%s: Default::default()" % n)
        else:
            b.append("%s: %s" % (n, x[1]))
            w += x[2]
    return "%s { %s }" % (s.name, ", ".join(a)), "%s { %s }" % (s.name, ", ".join(b)), w


def plain_default(t):
    return t[0] in ("int", "bool", "vec", "bytes")


def structure(r, name, structs):
    s = Struct(name)
    nf = r.choice([1, 1, 2, 3, 4, 5, 6, 8, 12]) if r.random() < 0.94 else r.choice([17, 31, 33, 64, 65, 130, 257])
    names = r.sample(NAMES, nf) if nf <= 12 else ["f%d" % i for i in range(nf)]
    s.serde = r.random() < 0.5
    for n in names:
        skipped = r.random() < 0.25
        if skipped:
            t = r.choice([("nocodec",), ("int", r.choice(list(INTS))), ("bytes",), ("vec", ("int", "u8")), ("bool",)])
            if s.serde and t[0] == "nocodec":
                t = ("bool",)
        else:
            t = ty(r, [x for x in structs if not s.serde or x.serde])
        attrs = []
        for a in r.sample(ATTRS, r.choice([0, 0, 1, 1, 2])):
            if "serde" in a and (not s.serde or not plain_default(t)):
                continue
            attrs.append(a)
        if skipped:
            attrs.insert(r.randrange(len(attrs) + 1), "#[bitcoin_code(skip)]")
        s.fields.append((n, t, skipped, attrs))
    if all(f[2] for f in s.fields):
        s.fields.append(("tail_", ("int", "u8"), False, []))
    return s


def source(r, s):
    out = []
    head = r.choice(["", "", '#[bitcoin_code(crate = "bch")]', '#[bitcoin_code]' if False else ""])
    d = ["BitcoinCode", "Clone", "Debug", "PartialEq"] + (["serde::Serialize", "serde::Deserialize"] if s.serde else [])
    r.shuffle(d)
    out.append("#[derive(%s)]" % ", ".join(d))
    if head:
        out.append(head)
    if r.random() < 0.3:
        out.append("/// documented")
    out.append("%sstruct %s {" % (r.choice(["", "pub ", "pub(crate) "]), s.name))
    for n, t, _, attrs in s.fields:
        for a in attrs:
            out.append("    " + a)
        out.append("    %s%s: %s," % (r.choice(["", "pub ", "pub(crate) "]), n, rust(t)))
    out.append("}")
    return "\n".join(out)


def run(tier, seed, env, rundir, target, only=None):
    """returns (stats, violations, inconclusive, classes, distinct)"""
    repo = os.environ.get("VERIF_REPO", "/repo")
    env = dict(env, CARGO_TARGET_DIR=os.path.join(target, "m"))
    quick = tier == "quick"
    nb, per_bin = (8, 30) if quick else (32, 60)
    nvals = 6 if quick else 10
    violations, inconclusive, classes, distinct = [], [], {}, set()
    stats = {"structures generated": 0, "values encoded": 0, "decodings compared": 0, "truncations tried": 0, "lists compared": 0}
    crate = os.path.join(rundir, "dcrate")
    shutil.rmtree(crate, ignore_errors=True)
    os.makedirs(os.path.join(crate, "src", "bin"))
    open(os.path.join(crate, "Cargo.toml"), "w").write(CARGO % repo)
    shutil.copy(os.path.join(VERIF, "macro", "Cargo.lock"), crate)
    want, spans, srcs = {}, {}, {}
    bins = [int(only.split("#")[1].split(".")[0])] if only else range(nb)
    for b in bins:
        r = random.Random("%s/derive/%d" % (seed, b))
        structs, mods, mains = [], [], []
        for i in range(per_bin):
            s = structure(r, "S%d" % i, structs[-12:])
            src = source(r, s)
            if len(s.fields) <= 20:
                structs.append(s)
            else:
                classes["more than 16 fields"] = classes.get("more than 16 fields", 0) + 1
            uid = "%d.%d" % (b, i)
            srcs[uid] = src
            for n, t, sk, attrs in s.fields:
                c = ("skipped " if sk else "") + (t[0] if t[0] != "int" else t[1])
                classes[c] = classes.get(c, 0) + 1
                for a in attrs:
                    c = "with " + a.split("(")[0].split(" ")[0].strip("#[]/ ") if not a.startswith("///") else "with doc comment"
                    classes[c] = classes.get(c, 0) + 1
            body = []
            ls, ss, ws = [], [], b""
            for v in range(nvals):
                l, st, w = value(r, ("struct", s))
                tail = r.randbytes(r.choice([0, 1, 2, 40]))
                tag = "%s.%d" % (uid, v)
                want[tag] = (w, tail)
                body.append('run::<%s>("%s", %s, %s, "%s", "%s");' % (s.name, tag, l, st, w.hex(), tail.hex()))
                if v < 3:
                    ls.append(l)
                    ss.append(st)
                    ws += w
            want["%s.list" % uid] = ws
            body.append('list::<%s>("%s.list", vec![%s], vec![%s]);' % (s.name, uid, ", ".join(ls), ", ".join(ss)))
            body.append('list::<%s>("%s.empty", vec![], vec![]);' % (s.name, uid))
            want["%s.empty" % uid] = b""
            mods.append("%s\nfn run_%d() {\n%s\n}" % (src, i, "\n".join(body)))
            mains.append("run_%d();" % i)
        text, pos = HEAD, []
        line = text.count("\n") + 1
        for k, m in enumerate(mods):
            n = m.count("\n") + 1
            pos.append((line, line + n - 1, "%d.%d" % (b, k)))
            text += m + "\n"
            line += n
        text += "fn main() { %s }\n" % " ".join(mains)
        open(os.path.join(crate, "src", "bin", "d%02d.rs" % b), "w").write(text)
        spans[b] = pos
    rc, msgs, err = cargo(["--bins", "--keep-going"], crate, env, 300 if quick else 1800)
    if rc is None:
        inconclusive.append("compiling the generated structures exceeded the time limit")
        return stats, violations, inconclusive, classes, distinct
    if rc != 0:
        bad = {}
        for b in bins:
            for line, msg in errors_by_line(msgs, "d%02d" % b).items():
                for a, z, uid in spans[b]:
                    if a <= line <= z:
                        bad.setdefault(uid, msg)
        for uid, msg in sorted(bad.items())[:5]:
            violations.append({"case": "derive#" + uid, "input": srcs[uid], "detail": "a structure that should derive the codec does not compile: %s" % msg})
        if not bad:
            inconclusive.append("the generated structures do not build: " + err[-600:])
        return stats, violations, inconclusive, classes, distinct
    for b in bins:
        try:
            out = subprocess.run([os.path.join(target, "m", "debug", "d%02d" % b)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
        except subprocess.TimeoutExpired:
            inconclusive.append("running the generated structures exceeded 300 s")
            break
        got = {}
        last = None
        for l in out.stdout.decode(errors="replace").split("\n"):
            k, _, rest = l.partition(" ")
            tag, _, val = rest.partition(" ")
            if tag:
                got[(k, tag)] = val
                last = tag
        if out.returncode != 0:
            uid = ".".join((last or "%d.0" % b).split(".")[:2])
            violations.append({"case": "derive#" + uid, "input": srcs[uid], "detail": "the generated codec fails at or after %s: %s" % (last, out.stderr.decode(errors="replace")[-300:])})
            break
        for tag, w in want.items():
            if not tag.startswith("%d." % b):
                continue
            uid = ".".join(tag.split(".")[:2])

            def bad(msg):
                if len(violations) < 10:
                    violations.append({"case": "derive#" + uid, "input": srcs[uid], "detail": "%s: %s" % (tag, msg)})
            if tag.endswith(".list") or tag.endswith(".empty"):
                stats["lists compared"] += 1
                if got.get(("A", tag)) != w.hex():
                    bad("the list encodes to %s, its items to %s" % (got.get(("A", tag)), w.hex()))
                if got.get(("B", tag)) != "true":
                    bad("the list decodes to something else (%s)" % got.get(("B", tag)))
                continue
            w, tail = w
            stats["values encoded"] += 1
            stats["decodings compared"] += 3
            stats["truncations tried"] += len(w) if len(w) <= 400 else 400
            if got.get(("S", tag)) != w.hex():
                bad("encodes to %s, expected %s" % (got.get(("S", tag)), w.hex()))
            if got.get(("D", tag)) != "true":
                bad("%s does not decode to the value it stands for (%s)" % (w.hex(), got.get(("D", tag))))
            if got.get(("R", tag)) != "true " + tail.hex():
                bad("decoding %s in front of %s gives %s" % (w.hex(), tail.hex(), got.get(("R", tag))))
            if tail and got.get(("L", tag)) != "true":
                bad("trailing bytes are accepted")
            if got.get(("T", tag)) != "":
                bad("truncating %s to %s bytes still decodes" % (w.hex(), got.get(("T", tag))))
            if got.get(("E", tag)) != w.hex():
                bad("decoding and encoding again gives %s, not %s" % (got.get(("E", tag)), w.hex()))
        for uid, src in srcs.items():
            if uid.startswith("%d." % b):
                stats["structures generated"] += 1
                distinct.add(hashlib.sha256(src.encode()).hexdigest())
    return stats, violations, inconclusive, classes, distinct

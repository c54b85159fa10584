"""C35: items that are well-formed Rust but odd or wrong as scripts or wire structures are compiled with the real macros; the
compiler's diagnostics are the event log.  No expansion may panic, every error must lie in the item it is about, an item with one
known mistake must be reported on the line of the mistake, and the sound items among them must not be reported at all."""
import hashlib, os, random, re, shutil, time
import macro_check as mc
import gen

PRE = "use bitcoin_cash::{self, Opcode::*, ByteArray, Integer, Ops, BitcoinCode};\nuse bitcoin_cash as bch;\n"
IDENTS = ["a", "b", "x1", "_y", "__", "r#type", "r#In", "été", "名前", "In", "A", "B", "s", "OP_DUP", "OP_IF", "depth_of", "transmute", "variant", "ops", "self_", "Self_", "len", "__id_0", "__script_vec", "x" * 90]
STRINGS = ["", " ", "!", "!!", "c", "!c", "c&&b", "c&&", "&&", "||", "c||", "!c||b&&!a", "é", "!é", "é&&!é", "&é", "c &&b", "名", "!名||c", "😀", "!😀", "c||😀", "\\u{0}", "1", "_", "c!", "a::b", "a.b", "crate", "self", "bitcoin_cash",
           "bch", "r#type", "a b", "\\n", "é" * 40, "&&&&", "|||", "a&b", "#"]
DISABLED = ["OP_RESERVED", "OP_RESERVED1", "OP_RESERVED2", "OP_MUL", "OP_2MUL", "OP_2DIV", "OP_INVERT", "OP_LSHIFT", "OP_RSHIFT", "OP_VER", "OP_VERIF", "OP_VERNOTIF", "OP_IFDUP", "OP_CHECKMULTISIG", "OP_CHECKMULTISIGVERIFY"]
LITS = ["1", "0", "1.5", "'c'", "'é'", "b'c'", 'b"ab"', 'b""', "true", "false", '"text"', 'r#"raw"#', "-1", "1u128", "1i8", "0xff", "1e9", "99999999999999999999999", '"é"', "170141183460469231731687303715884105728", "0usize", "1_000", "0b1", "0x_f_"]


class Case:
    def __init__(self, kind, text, line=None, good=False, typed=False):
        self.params = [("x", "u8")]
        self.kind, self.text, self.line, self.good, self.typed = kind, text, line, good, typed   # line: 1-based in text


def string(rng):
    if rng.random() < 0.7:
        return '"%s"' % rng.choice(STRINGS)
    return '"%s"' % "".join(rng.choice("ab!&|_ é名😀1:.#") for _ in range(rng.randrange(9)))


def attr_args(rng):
    r = rng.random()
    if r < 0.04:
        return rng.choice(["", "In;", "In => A", "@", "In A", "In, , A", ",", "(In)", "[In]", "{In}", "$", "#[x]", "In = In", "In..", "&In", "'a", "_", "In<T>", "fn"])
    first = rng.choice(["In"] * 12 + ["r#In", "Été", "m::In", "crate", "self", '"In"', "5", "In()", "In = 1", "In(A)", "Self", "::In"])
    args = [first]
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 5])):
        k = rng.random()
        if k < 0.45:
            args.append("%s = %s" % (rng.choice(["A", "B", "C", "r#In", "Été", "In", "m::A", "r#type", "x"]), string(rng)))
        elif k < 0.55:
            args.append("crate = %s" % rng.choice([string(rng), rng.choice(LITS), '"bitcoin_cash"']))
        elif k < 0.65:
            args.append("debug = %s" % rng.choice(["true", "false", string(rng), rng.choice(LITS)]))
        elif k < 0.75:
            args.append("%s = %s" % (rng.choice(["A", "B"]), rng.choice(LITS)))
        else:
            args.append(rng.choice(["A", "A()", "A(c)", '"c"', "5", "m::A", "A(c = \"b\")", "A[c]", "debug", "crate", "A = A", "A = !c", "A = (1)", "r#true", "true"]))
    return ", ".join(args) + rng.choice(["", "", ""] + [","])


def params(rng):
    out = []
    r = rng.random()
    if r > 0.06:
        out.append(rng.choice(["params: &P"] * 10 + ["_: &P", "params: P", "&self", "self", "mut self", "self: &Self", "(a, b): P", "params: &'static P", "params: &mut P", "_: [P; 3]", "_: impl Copy",
                                                      "_: dyn Copy", "_: fn(u8) -> u8", "_: (P, P)", "_: !", "_: ()", "params: &dyn Copy", "P { x }: &P", "#[x] params: &P", "params: m::P", "params: <P as T>::U"]))
    for _ in range(rng.choice([0, 0, 1, 2, 3, 5])):
        at = rng.choice([""] * 6 + ["#[variant(%s)] " % rng.choice(["A", "A, B", "B", "In", "Z", "", "A,", "A::B", "A()", '"A"', "5", "A = 5", "r#In", "A, A", "Été", "_x"]),
                                    rng.choice(["#[variant] ", "#[variant = \"A\"] ", "#[variant = 1] ", "#[variant[A]] ", "#[variant{A}] ", "#[variant(A)] #[variant(B)] ", "#[m::variant(A)] ", "#[variant(a b)] ", "#[variant(;)] ",
                                                "/// doc\n    ", "#[cfg(no_such)] ", "#[allow(dead_code)] ", "#[x(y)] ", "#[variant(A + B)] "])])
        pat = rng.choice(IDENTS[:14] + ["_", "mut q", "ref q", "(a, b)", "q @ _", "[a, b]", "&q", "5", "c", "d"])
        ty = rng.choice(["Integer", "ByteArray", "bool", "u8", "Option<u8>", "&'static str", "[u8; 3]", "impl Copy", "_", "()", "!", "fn()", "m!()", "Vec<Vec<u8>>", "<u8 as T>::U", "dyn Copy", "&[u8]", "*const u8", "Box<Self>"])
        out.append("%s%s: %s" % (at, pat, ty))
    return out


def expr(rng, d=0):
    r = rng.random()
    if d > 2 or r < 0.25:
        return rng.choice(IDENTS + LITS + ["params.x", "P", "()", "a::b", "Self::X", "[1, 2]", "b\"\"[..]", "&b\"abc\"[..]", "Integer::new(3).unwrap()", "self", "..", "1..2"])
    if r < 0.55:
        op = rng.choice(sorted(gen.OPB) + DISABLED + ["OP_NOSUCH", "nosuch", "depth_of", "depth_of_offset", "transmute", "m::OP_DUP", "OP_DUP::<u8>", "r#OP_DUP", "op_dup", "(OP_DUP)", "f()", "OP_0", "OP_RESERVED", "OP_VERIF", "Opcode::OP_DUP", "bch::Opcode::OP_DUP"])
        n = rng.choice([0, 1, 1, 2, 3, 4, 7])
        return rng.choice([op] + [op + "(" + ", ".join(expr(rng, d + 1) if rng.random() < 0.4 else rng.choice(IDENTS) for _ in range(n)) + ")"] * 3)
    return rng.choice(["%s + %s", "%s.f(%s)", "(%s, %s)", "if %s { %s } else { 5 }", "match %s { _ => %s }", "{ %s; %s }", "[%s, %s]", "S { a: %s, b: %s }", "&(%s)[%s]", "%s as u8 + %s", "|x| (%s, %s)", "m!(%s, %s)",
                       "(%s)(%s)", "vec![%s; %s]", "unsafe { %s; %s }", "(%s)..(%s)", "{ let q = %s; %s }", "return (%s, %s)", "loop { %s; %s; break }", "'l: { %s; %s }", "async { %s; %s }", "-(%s) * !(%s)", "(%s) = (%s)", "(%s) += (%s)",
                       "const { (%s, %s) }"]) % (expr(rng, d + 1), expr(rng, d + 1))


def stmt(rng, d=0):
    r = rng.random()
    e = expr(rng)
    if r < 0.35:
        return e + ";"
    if r < 0.6:
        pat = rng.choice(["x", "y", "__", "_", "(x, y)", "(x, y, z)", "(x,)", "()", "mut x", "ref x", "(mut x, y)", "(x, 5)", "((x, y), z)", "x @ _", "[x, y]", "S { x }", "&x", "5", "(x, ..)", "..=5", "r#type", "été", "Some(x)", "x | y", "(x, _)",
                          "(x, x)", "m!()", "a::B", "#[allow(z)] (x, y)"][:-1])
        return rng.choice(["let %s = %s;" % (pat, e)] * 5 + ["let %s: Integer = %s;" % (pat, e), "let %s;" % pat, "let %s = %s else { return };" % (pat, e)])
    if r < 0.75:
        return rng.choice(["OP_IF(c);", "OP_IF;", "OP_NOTIF(c);", "OP_ELSE;", "OP_ENDIF;", "OP_ELSE(c);", "OP_ENDIF(x);", "let x = OP_IF(c);", "OP_IF(c, d);", "OP_IF(5);", "let x = OP_ELSE;", "let (x, y) = OP_ENDIF;", "OP_NOTIF;", "{ OP_IF(c); }", "OP_IF(c)()", "OP_IF(c) + OP_ENDIF;"][:-2])
    if r < 0.9 or d > 1:
        return rng.choice(["for i in 0..3 { %s }", "if c { %s } else { 5; }", "if let Some(x) = y { %s }", "while c { %s }", "{ %s }", "unsafe { %s }", "#[cfg(x)] { %s }", "if c { 5; } else if d { %s }", "'l: { %s }", "match c { _ => { %s } }",
                           "if c { %s }", "loop { %s }", "async { %s }", "for (a, b) in c { %s }", "const { %s }", "#[allow(x)] for i in 0..3 { %s }"]) % " ".join(stmt(rng, d + 1) for _ in range(rng.randrange(3)))
    return rng.choice(["fn inner() {}", "struct X;", "use a as b;", "const X: u8 = 5;", "static Y: u8 = 1;", "m! { x }", "m!(x);", "m![];", "println!(\"x\");", ";", ";;", "impl X {}", "mod m {}", "type T = u8;", "macro_rules! q { () => {} }", "#[allow(x)] 5;",
                       "#[cfg(x)] let x = 5;", "/* c */ OP_DUP;", "/// doc\n    OP_DUP;", "// line\n    OP_DROP;", "extern crate x;", "enum E {}", "trait Z {}", "union U { a: u8 }", "extern \"C\" {}", "#![allow(x)]" ][:-1])


def random_script(rng):
    pre = rng.choice(["", "", "", "/// # In\n/// text\n/// ## A\n/// more\n", "#[allow(dead_code)]\n", "/// # \n", "/// ## A\n", "/// # été\n/// ## \n", "#[doc = \"# In\"]\n#[doc(hidden)]\n", "#[doc = 5]\n", "#[cfg(all())]\n", "/// # In\n///\n/// ## 名\n", "#[inline]\n"])
    q = rng.choice(["pub "] * 8 + ["", "pub(crate) ", "pub(super) ", "async ", "const ", "unsafe ", 'extern "C" ', "pub async unsafe "])
    g = rng.choice([""] * 8 + ["<'a>", "<T>", "<T: Copy + Default>", "<const N: usize>", "<'a, T, const N: u8>", "<>", "<T: ?Sized>", "<'a: 'static>", "<const B: bool, const C: char>"])
    ret = rng.choice([""] * 8 + [" -> ()", " -> Integer", " -> !", " -> impl Copy", " where T: Copy", " where"])
    name = rng.choice(["s"] * 6 + IDENTS[2:9] + ["r#fn", "r#match", "drop", "ops", "__impl_s"])
    body = [stmt(rng) for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 8]))]
    if rng.random() < 0.2:
        body.append(expr(rng))
    ps = params(rng)
    if rng.random() < 0.5:
        # the body is as a script's mostly is: what is on the stack is what the opcodes are given
        body = rng.choice([["OP_DROP;"] * max(0, len(ps) - 1), ["let c = true;", "OP_IF(c);", "5;", "OP_ELSE;", "6;", "OP_ENDIF;"], ["let x = 5;", "let k = depth_of_offset(x, %s);" % rng.choice(LITS + ["0", "1", "18446744073709551615", "x", "-5"]), "OP_PICK(k);"]]) + body
    return Case("random script", "%s#[bitcoin_cash::script(%s)]\n%sfn %s%s(\n%s\n)%s {\n%s\n}" % (
        pre, attr_args(rng), q, name, g, "\n".join("    %s," % x for x in ps), ret, "\n".join("    " + x for x in body)))


def random_struct(rng):
    def a(where):
        body = rng.choice(["skip", "skip", "crate = %s" % rng.choice([string(rng), rng.choice(LITS)]), "crate", "other", "skip, skip", "", "5", "skip()", "skip = true", '"skip"', "a::b", "a::b = 1", "crate(x)", "crate = \"bch\"", "x y", "; ", "crate = \"bitcoin_cash\"", "crate = \"bch\", crate = \"bch\"",
                           "crate = \"bch\", x = 1"])
        return rng.choice(["#[bitcoin_code(%s)]" % body] * 5 + ["#[bitcoin_code]", "#[bitcoin_code = \"skip\"]", "#[bitcoin_code[%s]]" % body, "#[bitcoin_code{%s}]" % body, "#[doc = \"x\"]", "#[allow(dead_code)]"])
    sa = "".join(a("s") + "\n" for _ in range(rng.choice([0, 0, 1, 1, 2])))
    name = rng.choice(["X"] * 5 + ["r#type", "Été", "名", "P1"])
    g = rng.choice([""] * 6 + ["<T>", "<'a>", "<const N: usize>", "<T: Copy = u8>", "<>"])
    fs = []
    for i in range(rng.choice([0, 1, 1, 2, 3, 6])):
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            fs.append("    " + a("f"))
        fs.append("    %s%s: %s," % (rng.choice(["", "pub ", "pub(crate) "]), rng.choice(["r#type", "été", "x", "__deserialize_data", "__serialize_parts", "data"]) + ("" if rng.random() < 0.02 else str(i)),
                                     rng.choice(["u8", "ByteArray", "Vec<u8>", "u32", "T", "&'a str", "[u8; N]", "()", "!", "fn()", "m!()", "Option<u8>", "bch::Script", "impl Copy", "_", "<u8 as Z>::Q", "Box<dyn Copy>"])))
    k = rng.random()
    if k < 0.75:
        it = "struct %s%s {\n%s\n}" % (name, g, "\n".join(fs))
    else:
        it = rng.choice(["struct %s%s;", "struct %s%s();", "struct %s%s(u8, #[bitcoin_code(skip)] u8);", "enum %s%s { A, B }", "enum %s%s {}", "union %s%s { a: u8, b: u16 }", "enum %s%s { A { #[bitcoin_code(skip)] x: u8 } }", "struct %s%s(pub(crate) u8);"]) % (name, g)
    return Case("random structure", "#[derive(bch::BitcoinCode)]\n%s%s%s" % (sa, rng.choice(["", "pub ", "pub(crate) "]), it))


def spoiled(rng, p):
    """a sound random program with a few of its lines, names and numbers changed"""
    lines = gen.function(p, p.items).split("\n")
    at = next(i for i, x in enumerate(lines) if x.endswith(") {"))
    names = re.findall(r"\b[a-z]\w*\b(?= *[:,)=])", "\n".join(lines[at:])) or ["x"]
    for _ in range(rng.choice([1, 1, 2, 4, 12])):
        if len(lines) - 1 <= at + 1:
            break
        i = rng.randrange(at + 1, len(lines) - 1)
        k = rng.random()
        if k < 0.2:
            del lines[i]
        elif k < 0.3:
            lines.insert(i, lines[i])
        elif k < 0.4:
            j = rng.randrange(at + 1, len(lines) - 1)
            lines[i], lines[j] = lines[j], lines[i]
        elif k < 0.5:
            lines.insert(i, "    " + stmt(rng))
        elif k < 0.6:
            lines[at] = re.sub(r"\b%s\b" % re.escape(rng.choice(names)), rng.choice(names + IDENTS), lines[at])
        elif k < 0.7:
            a = next(n for n, x in enumerate(lines) if "::script(" in x)
            lines[a] = re.sub(r'"[^"]*"', lambda m: string(rng) if rng.random() < 0.5 else m.group(0), lines[a])
        elif k < 0.8:
            lines[i] = re.sub(r"\b\d+\b", lambda m: rng.choice(LITS), lines[i])
        elif k < 0.9:
            lines[i] = re.sub(r"\bOP_\w+", lambda m: rng.choice(sorted(gen.OPB) + DISABLED), lines[i])
        else:
            # (not within the literals: a bad escape is no Rust)
            w = re.findall(r"(?<![\\\w])[a-z]\w*\b", lines[i])
            if w:
                lines[i] = re.sub(r"(?<![\\\w])%s\b(?!\")" % re.escape(rng.choice(w)), lambda m: rng.choice(names + IDENTS), lines[i])
    c = Case("spoiled random program", "\n".join(lines))
    c.params = p.params
    return c


# one mistake each: (what, lines before it, the line, lines after it); the items d (bytes) and n (integer) are on the stack
MISTAKES = [
    ("an unknown opcode", [], "OP_NOSUCH;", []), ("an unknown opcode with arguments", [], "OP_NOSUCH(n);", []), ("an unknown function", [], "nosuch(n);", []), ("a disabled opcode", [], "OP_VERIF;", []), ("a reserved opcode", [], "OP_RESERVED;", []), ("a disabled sum", [], "OP_MUL(d, n);", []), ("a disabled shift", [], "let w = OP_LSHIFT(d, n);", []),
    ("a disabled opcode on one item", [], "OP_2MUL(n);", []), ("an opcode of unknown depth", [], "OP_IFDUP(n);", []), ("a multisig check", [], "OP_CHECKMULTISIG;", []), ("an opcode of another case", [], "op_drop(n);", []),
    ("an unknown opcode that is assigned", [], "let w = OP_NOSUCH(n);", []), ("a path to an opcode", [], "m::OP_DUP;", []), ("a path to an opcode, called", [], "m::OP_DUP(n);", []),
    ("too few names", [], "OP_ADD(n);", []), ("too many names", [], "OP_1ADD(d, n);", []), ("a name below the top", [], "OP_1ADD(d);", []), ("a name that is nowhere", [], "OP_1ADD(zzz);", []),
    ("names in the wrong order", [], "OP_CAT(n, d);", []), ("too many results", [], "let (v, w) = OP_1ADD(n);", []), ("results of an opcode without any", [], "let w = OP_DROP(n);", []), ("too few results", [], "let w = OP_2DUP(d, n);", []),
    ("an unnamed item named", ["5;"], "OP_1ADD(n);", []), ("__ for a new value", [], "let __ = OP_1ADD(n);", []), ("a depth of nothing", [], "depth_of();", []), ("a depth of a literal", [], "depth_of(5);", []),
    ("a depth of an item that is nowhere", [], "depth_of(zzz);", []), ("a depth of two items", [], "depth_of(d, n);", []), ("an offset left out", [], "depth_of_offset(n);", []), ("a wrong offset order", [], "depth_of_offset(1, n);", []),
    ("a huge offset", [], "depth_of_offset(d, 18446744073709551615);", []), ("an offset no machine can hold", [], "depth_of_offset(n, 99999999999999999999999);", []), ("an offset beyond integers", [], "depth_of_offset(d, 4294967296);", []),
    ("a transmute of nothing", [], "transmute();", []), ("a transmute to nothing", [], "transmute(n);", []), ("a transmute of an item that is nowhere", [], "transmute(zzz, Integer);", []), ("a transmute that renames", [], "let w = transmute(n, ByteArray);", []),
    ("a transmute of a literal", [], "transmute(5, Integer);", []), ("an empty alt stack", [], "OP_FROMALTSTACK;", []), ("an empty alt stack, assigned", [], "let w = OP_FROMALTSTACK();", []), ("two names from the alt stack", ["OP_TOALTSTACK(n);"], "let (v, w) = OP_FROMALTSTACK(n);", []),
    ("a wrong name to the alt stack", [], "OP_TOALTSTACK(d);", []), ("a wrong name from the alt stack", ["OP_TOALTSTACK(n);"], "OP_FROMALTSTACK(d);", []), ("a pick beyond the stack", ["let k = depth_of_offset(n, 77);"], "OP_PICK(k);", []),
    ("a roll beyond the stack", ["let k = depth_of_offset(n, 77);"], "OP_ROLL(k);", []), ("a pick named wrongly", ["let k = depth_of(d);"], "OP_PICK(n);", []), ("a pick into two", ["let k = depth_of(d);"], "let (v, w) = OP_PICK(k);", []),
    ("a loop", [], "for i in 0..3 { OP_DUP; }", []), ("a Rust branch", [], "if true { OP_DUP; }", []), ("a nested function", [], "fn inner() {}", []), ("a nested structure", [], "struct Inner;", []), ("an import", [], "use std::fmt;", []),
    ("a constant", [], "const INNER: u8 = 5;", []), ("a variable without a value", [], "let w;", []), ("a mutable variable", [], "let mut w = 5;", []), ("a reference pattern", [], "let ref w = 5;", []), ("a literal in a pattern", [], "let (w, 5) = OP_DUP(n);", []),
    ("a nested pattern", [], "let ((v, w), x) = OP_2DUP(d, n);", []), ("a slice pattern", [], "let [v, w] = OP_DUP(n);", []), ("a typed variable", [], "let w: Integer = 5;", []), ("two names for one value", [], "let (v, w) = 5;", []), ("no name for a value", [], "let () = 5;", []),
    ("a called call", [], "f()(n);", []), ("a call in parentheses", [], "(OP_DUP)(n);", []), ("else without if", [], "OP_ELSE;", []), ("endif without if", [], "OP_ENDIF;", []),
    ("if without a name", ["let w = true;"], "OP_IF;", ["OP_ENDIF;"]), ("if on a literal", ["let w = true;"], "OP_IF(true);", ["OP_ENDIF;"]), ("two else", ["let w = true;", "OP_IF(w);", "OP_ELSE;"], "OP_ELSE;", ["OP_ENDIF;"]),
    ("if on an item below the top", ["let w = true;"], "OP_IF(d);", ["OP_ENDIF;"]), ("if that yields a value", ["let w = true;"], "let v = OP_IF(w);", ["OP_ENDIF;"]), ("endif with a name", ["let w = true;", "OP_IF(w);"], "OP_ENDIF(w);", []),
    ("else with a name", ["let w = true;", "OP_IF(w);"], "OP_ELSE(w);", ["OP_ENDIF;"]),
    ("more names than results", [], "let (u, v, w) = OP_DUP(n);", []),
]
UNCLOSED = ["OP_IF(w);", "OP_NOTIF(w);"]
TYPED = [("a byte opcode on an integer", [], "OP_SHA256(n);", []), ("a sum of bytes and integer", [], "OP_ADD(d, n);", []), ("an unknown variable", [], "let w = no_such_variable;", []), ("an unknown field", [], "let w = params.no_such_field;", []),
         ("a value that can't be pushed", [], "let w = 1.5;", []), ("bytes cut by bytes", ["OP_SWAP(d, n);"], "OP_SPLIT(n, d);", []), ("a negated byte string", ["OP_SWAP(d, n);"], "OP_NOT(d);", []), ("a check of a boolean only", [], "OP_BOOLAND(d, n);", [])]
SIGS = [("a return type", "pub fn s(params: &P) -> Integer {", "", 1), ("no parameter", "pub fn s() {", "", 1), ("a method", "pub fn s(&self) {", "", 1), ("a generic constant", "pub fn s<const N: usize>(params: &P) {", "", 1)]
ATTRS = [("no structure name", ""), ("a literal for a name", '"In"'), ("a module in the name", "m::In"), ("a variant without a condition", "In, A"), ("a condition that's a number", "In, A = 5"), ("an empty condition", 'In, A = ""'), ("an empty half", 'In, A = "c&&"'),
         ("a lone !", 'In, A = "!"'), ("a double !", 'In, A = "!!c"'), ("a blank in a condition", 'In, A = "c && b"'), ("a lone &", 'In, A = "c&b"'), ("a symbol", 'In, A = "😀"'), ("a variant with a module", 'In, m::A = "c"'),
         ("a crate name that's a number", "In, crate = 5"), ("a crate path", 'In, crate = "a::b"'), ("an empty crate name", 'In, crate = ""'), ("debug by a string", 'In, debug = "yes"'), ("a list", "In, A(c)"), ("a call for a name", "In(A)")]
INPUTS = [("an input of an unknown variant", "#[variant(Z)] q: bool", 0), ("an input of the structure's name", "#[variant(In)] q: bool", 0), ("a pattern for an input", "(q, r): (bool, bool)", 1), ("a wildcard for an input", "_: bool", 1), ("a variant path", "#[variant(a::B)] q: bool", 1),
          ("a variant literal", '#[variant("A")] q: bool', 1), ("a variant value", '#[variant = "A"] q: bool', 1)]
SOUND_NAMES = ["r#type", "r#match", "été", "名前", "_x", "x" * 80]
FIELDS = ["#[bitcoin_code(other)]", "#[bitcoin_code]", '#[bitcoin_code = "skip"]', "#[bitcoin_code(skip = true)]", "#[bitcoin_code(skip, skip)]", "#[bitcoin_code(5)]", "#[bitcoin_code(skip())]"]
STRUCTS = ['#[bitcoin_code(crate = "a::b")]', '#[bitcoin_code(crate = "")]', "#[bitcoin_code(crate = 5)]", "#[bitcoin_code(other = \"x\")]", "#[bitcoin_code(skip)]", '#[bitcoin_code("x")]', '#[bitcoin_code(a::b = "x")]', "#[bitcoin_code(crate(x))]", '#[bitcoin_code(crate = "é é")]']


def filler(rng, inner=True):
    return rng.choice([["let z = 5;", "OP_DROP(z);"], ["OP_DUP(n);", "OP_DROP(n);"], ["OP_TOALTSTACK(n);", "let n = OP_FROMALTSTACK(n);"], ["OP_NOP;"], ["let z = b\"abc\"[..];", "OP_DROP;"], ["OP_2DUP(d, n);", "OP_2DROP(d, n);"],
                       ["let z = true;", "OP_IF(z);", "OP_NOP;", "OP_ELSE;", "OP_ENDIF;"], ["let k = depth_of(d);", "OP_PICK(k);", "OP_DROP(d);"], ["{", "OP_NOP;", "}"]])


def script(rng, args, sig, inputs, body, sound=False):
    """text and the line of each part"""
    lines = []
    for _ in range(rng.randrange(3)):
        lines.append(rng.choice(["/// # In", "/// text", "#[allow(dead_code)]", "// comment", ""]))
    at = {}
    lines.append("#[bitcoin_cash::script(%s)]" % args)
    at["attr"] = len(lines)
    lines.append(sig)
    at["sig"] = len(lines)
    if sig.endswith("("):
        lines.append("    params: &P,")
        for i, x in enumerate(inputs):
            lines.append("    %s," % x)
            at["in%d" % i] = len(lines)
        lines.append(") {")
        at["sigend"] = len(lines)
    for i, x in enumerate(body):
        lines.append("    " + x)
        at["b%d" % i] = len(lines)
        if rng.random() < 0.05:
            lines.append("    // " + rng.choice(["comment", "OP_NOSUCH;", "é"]))
    lines.append("}")
    return "\n".join(lines), at


def around(rng, body, mark, typed):
    """statements before and after, possibly within a branch or block; body[mark] is the culprit"""
    pre, post = [], []
    for _ in range(rng.choice([0, 0, 1, 2, 4, 9])):
        pre += filler(rng)
    for _ in range(rng.choice([0, 0, 1, 2])):
        post += ["OP_NOP;"] if typed else filler(rng)   # (what follows must suit the stack when the mistake is the types' alone)
    k = rng.random()
    if k < 0.15:
        pre, post = pre + ["let u = true;", "OP_IF(u);"], ["OP_ENDIF;"]
    elif k < 0.3:
        pre, post = pre + ["let u = true;", "OP_NOTIF(u);", "OP_NOP;", "OP_ELSE;"], ["OP_ENDIF;"]
    elif k < 0.4:
        pre, post = pre + ["{"], ["}"]
    return pre + body + post, len(pre) + mark


def culprits(rng):
    out = []
    for typed, table in ((False, MISTAKES), (True, TYPED)):
        for what, before, line, after in table:
            for _ in range(8):
                body, k = around(rng, before + [line] + after, len(before), typed)
                if what in ("else without if", "endif without if"):
                    body, k = ["OP_NOP;"] * rng.randrange(3), 0
                    body, k = body + [line, "OP_NOP;"], len(body)
                text, at = script(rng, rng.choice(['In', 'In, debug = false']), "pub fn s(", ["d: ByteArray", "n: Integer"], body)
                out.append(Case("mistake: " + what, text, at["b%d" % k], typed=typed))
    for x in UNCLOSED:
        body = ["let w = true;", x, "OP_NOP;"]
        text, at = script(rng, "In", "pub fn s(", ["d: ByteArray", "n: Integer"], body)
        out.append(Case("mistake: an unclosed branch", text, at["b1"]))
    for what, sig, _, _ in SIGS:
        text, at = script(rng, "In", sig, [], ["OP_NOP;"])
        out.append(Case("mistake: " + what, text, at["sig"]))
    for what, args in ATTRS * 2:
        text, at = script(rng, args, "pub fn s(params: &P, c: bool) {", [], ["OP_DROP(c);"])
        out.append(Case("mistake: " + what, text, (at["attr"], at["sig"])))
    for what, inp, wide in INPUTS * 4:
        ins = ["d: ByteArray", "n: Integer", inp]
        rng.shuffle(ins)
        text, at = script(rng, rng.choice(["In", 'In, A = "c", B = "!c"']) if "Z" in inp or "In" in inp else 'In, A = "c", B = "!c"', "pub fn s(", ins, ["OP_NOP;"])
        j = ins.index(inp)
        out.append(Case("mistake: " + what, text, (at["sig"], at["sigend"]) if wide else at["in%d" % j]))
    for i, f in enumerate(FIELDS):
        for ty in ("u8", "ByteArray"):
            out.append(Case("mistake: a field's attribute", "#[derive(bch::BitcoinCode)]\npub struct X {\n    a: u8,\n    %s\n    b: %s,\n    c: u8,\n}" % (f, ty), 4))
    for f in STRUCTS:
        out.append(Case("mistake: a structure's attribute", "#[derive(bch::BitcoinCode)]\n#[allow(dead_code)]\n%s\npub struct X {\n    a: u8,\n}" % f, 3))
    for it in ("pub struct X;", "pub struct X(u8, ByteArray);", "pub enum X { A, B }", "pub union X { a: u8, b: u8 }"):
        out.append(Case("mistake: not a structure of named fields", "#[derive(bch::BitcoinCode)]\n#[allow(dead_code)]\n%s" % it, 3))
    out.append(Case("mistake: a field without a wire form", "#[derive(bch::BitcoinCode)]\npub struct X {\n    a: u8,\n    b: Box<u8>,\n    c: u8,\n}", 4, typed=True))
    return out


def sound(rng):
    out = []
    for x in SOUND_NAMES:
        out.append(Case("sound: a name", script(rng, "In", "pub fn %s(" % x, ["d: ByteArray"], ["OP_DROP(d);"])[0], good=True))
        out.append(Case("sound: an input's name", script(rng, "In", "pub fn s(", ["%s: ByteArray" % x], ["OP_DROP(%s);" % x])[0], good=True))
        out.append(Case("sound: an item's name", script(rng, "In", "pub fn s(", ["d: ByteArray"], ["let %s = 5;" % x, "depth_of(%s);" % x, "OP_2DROP;"])[0], good=True))
        out.append(Case("sound: a structure's name", script(rng, x if x[0] != "_" else "In", "pub fn s(", ["d: ByteArray"], ["OP_DROP(d);"])[0], good=True))
        if "#" not in x:
            for p in ("%s", "!%s", "%s||!%s", "!%s||%s"):
                cond = p.replace("%s", x)
                out.append(Case("sound: a condition's name", script(rng, 'In, A = "%s"' % cond, "pub fn s(", ["d: ByteArray", "%s: bool" % x], ["OP_DROP(%s);" % x])[0], good=True))
        out.append(Case("sound: a field's name", "#[derive(bch::BitcoinCode)]\npub struct X {\n    %s: u8,\n    b: ByteArray,\n}" % x, good=True))
        out.append(Case("sound: a structure's name", "#[derive(bch::BitcoinCode)]\npub struct %s {\n    a: u8,\n    b: ByteArray,\n}" % x, good=True))
    for c in ("bitcoin_cash", "bch"):
        out.append(Case("sound: a crate name", script(rng, 'In, crate = "%s"' % c, "pub fn s(", ["d: ByteArray"], ["OP_DROP(d);"])[0], good=True))
        out.append(Case("sound: a crate name", "#[derive(bch::BitcoinCode)]\n#[bitcoin_code(crate = \"%s\")]\npub struct X {\n    a: u8,\n}" % c, good=True))
    out.append(Case("sound: an empty script", script(rng, "In", "pub fn s(", [], [])[0], good=True))
    out.append(Case("sound: an empty script", script(rng, 'In, A = "c"', "pub fn s(", [], [])[0], good=True))
    for _ in range(12):
        body = []
        for _ in range(rng.randrange(1, 9)):
            body += filler(rng)
        out.append(Case("sound: balanced statements", script(rng, rng.choice(["In", "In, debug = false", 'In, A = "z"', 'In, A = "z", B = "!z"']), "pub fn s(", ["d: ByteArray", "n: Integer"], body)[0], good=True))
    return out


def compile_(cases, ids, crate, env, nb, canary, violations, inconclusive, tag, stats, messages):
    """case -> the errors that lie in it, each with the lines it points at; every item is a file of its own, so one that isn't Rust is left out by the compiler without a word on the others"""
    bins = os.path.join(crate, "src", "bin")
    shutil.rmtree(bins, ignore_errors=True)
    os.makedirs(os.path.join(bins, "items"))
    targets = {}
    for k in range(nb):
        part = ids[k::nb]
        if not part:
            continue
        for j in part:
            open(os.path.join(bins, "items", "m%d.rs" % j), "w").write("%spub struct P { %s }\n%s\n" % (PRE, ", ".join("pub %s: %s" % (x[0], x[1]) for x in cases[j].params), cases[j].text))
        open(os.path.join(bins, "l%02d.rs" % k), "w").write(
            "#![allow(warnings)]\n" + "".join('#[path = "items/m%d.rs"]\npub mod m%d;\n' % (j, j) for j in part) + ('compile_error!("canary");\n' if canary else "") + "fn main() {}\n")
        targets["l%02d" % k] = set(part)
    rc, msgs, err = mc.cargo(["--bins", "--keep-going"], crate, env, 420)
    stats["compiler passes"] += 1
    got, sang, head = {}, set(), PRE.count("\n") + 1
    if rc is None:
        violations.append({"case": "located#%s.?" % tag, "input": "", "detail": "compiling the generated items doesn't end: " + err})
        return got, set()
    for t, msg in msgs:
        if t not in targets or not msg["level"].startswith("error"):
            continue
        if msg["message"] == "canary":
            sang.add(t)
            continue
        stats["errors seen"] += 1
        points = {}
        for s in msg["spans"]:
            # (of several ill-typed arguments the compiler reports the call and labels the arguments)
            if s["is_primary"] or "arguments" in msg["message"]:
                own = True
                while s:
                    x = re.search(r"items/m(\d+)\.rs$", s["file_name"])
                    if x:
                        points.setdefault(int(x.group(1)), []).extend([(s["line_start"] - head, s["line_end"] - head)] if own else [])
                    s = s["expansion"]["span"] if s.get("expansion") else None
                    own = False
        messages.add(re.sub(r"`[^`]*`|\d+", "_", msg["message"]))
        says = "%s %s" % (msg["message"], "; ".join(c["message"] for c in msg["children"]))
        if "panicked" in says or "internal compiler error" in msg["level"]:
            for j in sorted(points) or ["?"]:
                violations.append({"case": "located#%s.%s" % (tag, j), "input": cases[j].text if j != "?" else "", "detail": "the macro panics: " + says[:400]})
            continue
        if not any("src/bin/" in s["file_name"] for s in msg["spans"]) or msg["message"].startswith("reached the recursion limit"):
            continue    # the compiler's own summaries, and limits that it met in the standard library
        if not points:
            violations.append({"case": "located#%s.?" % tag, "input": (msg.get("rendered") or "")[:600], "detail": "an error that points into none of the items: " + says[:400]})
            continue
        for j, p in points.items():
            got.setdefault(j, []).append((says, p))
    silent = set().union(*[targets[t] for t in targets if t not in sang]) if canary else set()
    return got, silent


def run(tier, seed, env, rundir, target, only=None):
    repo = os.environ.get("VERIF_REPO", "/repo")
    env = dict(env, CARGO_TARGET_DIR=os.path.join(target, "m"))
    quick = tier == "quick"
    t0 = time.time()
    m = {"evaluations": 0, "distinct_nontrivial": 0, "events": 0, "trivial": 0, "classes": {}, "known": {}, "samples": [], "phases": {}, "notes": [],
         "rule": "items compiled by the real macros: odd but well-formed functions and structures, items with one mistake on a known line, sound items with odd names; distinct by source text"}
    violations, inconclusive = [], []
    stats = {"compiler passes": 0, "errors seen": 0, "items that are no Rust": 0, "items left alone": 0, "items reported within themselves": 0, "mistakes reported on their line": 0}
    crate = os.path.join(rundir, "crate")
    os.makedirs(os.path.join(crate, "src"))
    open(os.path.join(crate, "Cargo.toml"), "w").write(mc.CARGO % repo)
    shutil.copy(os.path.join(mc.VERIF, "macro", "Cargo.lock"), crate)
    distinct, messages, planned = set(), set(), 0
    for rd in range(1 if quick else 12):
        rng = random.Random("%d/located/%d" % (seed, rd))
        known = culprits(rng)
        cases = [c for c in known if not c.typed] + [random_script(rng) if rng.random() < 0.75 else random_struct(rng) for _ in range(2000 if quick else 4000)]
        for i in range(400 if quick else 1000):
            cases.append(spoiled(rng, (gen.scale if i % 40 == 3 else gen.program)(random.Random("%d/located/%d/%d" % (seed, rd, i)), i)))
        second = [c for c in known if c.typed]
        third = sound(rng)
        for phase, cs in (("a", cases), ("b", second), ("c", third)):
            ids = list(range(len(cs)))
            if only:
                o = only.split("#")[1]
                if not o.startswith("%d%s" % (rd, phase)):
                    continue
                j = o.split(".")[1]
                ids = [int(j)] if j.isdigit() else ids
            planned += len(ids)
            tag = "%d%s" % (rd, phase)
            # an item whose brackets don't match ends the compilation of its file before any macro runs
            got, left, no_rust = {}, ids, set()
            for _ in range(12):
                g, silent = compile_(cs, left, crate, env, 16 if phase == "a" else 4, phase == "a", violations, inconclusive, tag, stats, messages)
                got.update({j: e for j, e in g.items() if j not in silent})
                no_rust |= {j for j in g if j in silent}
                left = sorted(silent - no_rust)
                if violations or not left:
                    break
            else:
                inconclusive.append("the compiler gave up before the macros ran")
            if violations or inconclusive:
                break
            stats["items that are no Rust"] += len(no_rust)
            ids = [j for j in ids if j not in no_rust]
            for j in ids:
                c = cs[j]
                m["evaluations"] += 1
                m["classes"][c.kind] = m["classes"].get(c.kind, 0) + 1
                distinct.add(hashlib.sha256(c.text.encode()).digest()[:8])
                errs = got.get(j, [])
                case = {"case": "located#%s.%d" % (tag, j), "input": c.text}
                if c.good:
                    if errs:
                        violations.append(dict(case, detail="a sound item (%s) is rejected: %s" % (c.kind, errs[0][0])))
                    else:
                        stats["items left alone"] += 1
                elif c.line is not None:
                    a, z = c.line if isinstance(c.line, tuple) else (c.line, c.line)
                    if not errs:
                        violations.append(dict(case, detail="an item with a mistake isn't reported (%s)" % c.kind))
                    elif not any(a <= x <= y <= z for _, p in errs for x, y in p):
                        violations.append(dict(case, detail="%s on line %s is reported elsewhere: %r" % (c.kind, c.line, [(e[0][:120], e[1]) for e in errs[:3]])))
                    else:
                        stats["mistakes reported on their line"] += 1
                else:
                    stats["items reported within themselves" if errs else "items left alone"] += 1
                    if errs and len(m["samples"]) < 4 and len(c.text) < 400:
                        m["samples"].append("%s -> %s" % (c.text, errs[0][0][:160]))
        if violations or inconclusive:
            break
    m["distinct_nontrivial"] = len(distinct)
    stats["distinct error messages"] = len(messages)
    m["extra"] = {"observed": stats}
    m["events"] = stats["errors seen"] + stats["items left alone"]
    m["phases"] = {"items": {"planned": planned, "run": m["evaluations"], "secs": round(time.time() - t0, 2)}}
    return m, violations, inconclusive

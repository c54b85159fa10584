"""Generates well-formed #[script] functions, with what each written statement means, and single-error mutants of them.

Nothing here looks at the macro's sources: the tables below are Bitcoin Cash's own stack effects."""
import random

I, B, Y = "Integer", "Boolean", "Bytes"

OPB = {"OP_0": 0x00, "OP_1NEGATE": 0x4F, "OP_NOP": 0x61, "OP_IF": 0x63, "OP_ELSE": 0x67, "OP_ENDIF": 0x68, "OP_VERIFY": 0x69,
       "OP_RETURN": 0x6A, "OP_TOALTSTACK": 0x6B, "OP_FROMALTSTACK": 0x6C, "OP_2DROP": 0x6D, "OP_2DUP": 0x6E, "OP_3DUP": 0x6F,
       "OP_2OVER": 0x70, "OP_2ROT": 0x71, "OP_2SWAP": 0x72, "OP_DEPTH": 0x74, "OP_DROP": 0x75, "OP_DUP": 0x76, "OP_NIP": 0x77,
       "OP_OVER": 0x78, "OP_PICK": 0x79, "OP_ROLL": 0x7A, "OP_ROT": 0x7B, "OP_SWAP": 0x7C, "OP_TUCK": 0x7D, "OP_CAT": 0x7E,
       "OP_SPLIT": 0x7F, "OP_NUM2BIN": 0x80, "OP_BIN2NUM": 0x81, "OP_SIZE": 0x82, "OP_AND": 0x84, "OP_OR": 0x85, "OP_XOR": 0x86,
       "OP_EQUAL": 0x87, "OP_EQUALVERIFY": 0x88, "OP_1ADD": 0x8B, "OP_1SUB": 0x8C, "OP_NEGATE": 0x8F, "OP_ABS": 0x90,
       "OP_NOT": 0x91, "OP_0NOTEQUAL": 0x92, "OP_ADD": 0x93, "OP_SUB": 0x94, "OP_DIV": 0x96, "OP_MOD": 0x97, "OP_BOOLAND": 0x9A,
       "OP_BOOLOR": 0x9B, "OP_NUMEQUAL": 0x9C, "OP_NUMEQUALVERIFY": 0x9D, "OP_NUMNOTEQUAL": 0x9E, "OP_LESSTHAN": 0x9F,
       "OP_GREATERTHAN": 0xA0, "OP_LESSTHANOREQUAL": 0xA1, "OP_GREATERTHANOREQUAL": 0xA2, "OP_MIN": 0xA3, "OP_MAX": 0xA4,
       "OP_WITHIN": 0xA5, "OP_RIPEMD160": 0xA6, "OP_SHA1": 0xA7, "OP_SHA256": 0xA8, "OP_HASH160": 0xA9, "OP_HASH256": 0xAA,
       "OP_CODESEPARATOR": 0xAB, "OP_CHECKSIG": 0xAC, "OP_CHECKSIGVERIFY": 0xAD, "OP_NOP1": 0xB0, "OP_CHECKLOCKTIMEVERIFY": 0xB1,
       "OP_CHECKSEQUENCEVERIFY": 0xB2, "OP_NOP4": 0xB3, "OP_NOP5": 0xB4, "OP_NOP6": 0xB5, "OP_NOP7": 0xB6, "OP_NOP8": 0xB7,
       "OP_NOP9": 0xB8, "OP_NOP10": 0xB9, "OP_CHECKDATASIG": 0xBA, "OP_CHECKDATASIGVERIFY": 0xBB, "OP_REVERSEBYTES": 0xBC}
for _n in range(1, 17):
    OPB["OP_%d" % _n] = 0x50 + _n

# name: (types consumed, bottom first; items produced, bottom first: index of the consumed item it is, or the type of a new item)
# "*" any type, "=" any but the same type as the previous one
EFF = {
    "OP_VERIFY": ([B], []), "OP_2DROP": (["*"] * 2, []), "OP_2DUP": (["*"] * 2, [0, 1, 0, 1]), "OP_3DUP": (["*"] * 3, [0, 1, 2, 0, 1, 2]),
    "OP_2OVER": (["*"] * 4, [0, 1, 2, 3, 0, 1]), "OP_2ROT": (["*"] * 6, [2, 3, 4, 5, 0, 1]), "OP_2SWAP": (["*"] * 4, [2, 3, 0, 1]),
    "OP_DEPTH": ([], [I]), "OP_DROP": (["*"], []), "OP_DUP": (["*"], [0, 0]), "OP_NIP": (["*"] * 2, [1]), "OP_OVER": (["*"] * 2, [0, 1, 0]),
    "OP_ROT": (["*"] * 3, [1, 2, 0]), "OP_SWAP": (["*"] * 2, [1, 0]), "OP_TUCK": (["*"] * 2, [1, 0, 1]),
    "OP_CAT": ([Y, Y], [Y]), "OP_SPLIT": ([Y, I], [Y, Y]), "OP_NUM2BIN": ([I, I], [Y]), "OP_BIN2NUM": ([Y], [I]), "OP_SIZE": ([Y], [0, I]),
    "OP_AND": ([Y, Y], [Y]), "OP_OR": ([Y, Y], [Y]), "OP_XOR": ([Y, Y], [Y]), "OP_EQUAL": (["*", "="], [B]), "OP_EQUALVERIFY": (["*", "="], []),
    "OP_1ADD": ([I], [I]), "OP_1SUB": ([I], [I]), "OP_NEGATE": ([I], [I]), "OP_ABS": ([I], [I]), "OP_NOT": ([B], [B]), "OP_0NOTEQUAL": ([I], [B]),
    "OP_ADD": ([I, I], [I]), "OP_SUB": ([I, I], [I]), "OP_DIV": ([I, I], [I]), "OP_MOD": ([I, I], [I]), "OP_BOOLAND": ([B, B], [B]),
    "OP_BOOLOR": ([B, B], [B]), "OP_NUMEQUAL": ([I, I], [B]), "OP_NUMEQUALVERIFY": ([I, I], []), "OP_NUMNOTEQUAL": ([I, I], [B]),
    "OP_LESSTHAN": ([I, I], [B]), "OP_GREATERTHAN": ([I, I], [B]), "OP_LESSTHANOREQUAL": ([I, I], [B]), "OP_GREATERTHANOREQUAL": ([I, I], [B]),
    "OP_MIN": ([I, I], [I]), "OP_MAX": ([I, I], [I]), "OP_WITHIN": ([I, I, I], [B]), "OP_RIPEMD160": ([Y], [Y]), "OP_SHA1": ([Y], [Y]),
    "OP_SHA256": ([Y], [Y]), "OP_HASH160": ([Y], [Y]), "OP_HASH256": ([Y], [Y]), "OP_CODESEPARATOR": ([], []), "OP_CHECKSIG": ([Y, Y], [B]),
    "OP_CHECKSIGVERIFY": ([Y, Y], []), "OP_CHECKLOCKTIMEVERIFY": ([I], [0]), "OP_CHECKSEQUENCEVERIFY": ([I], [0]),
    "OP_CHECKDATASIG": ([Y, Y, Y], [B]), "OP_CHECKDATASIGVERIFY": ([Y, Y, Y], []), "OP_REVERSEBYTES": ([Y], [Y]),
    "OP_NOP": ([], []), "OP_NOP1": ([], []), "OP_NOP4": ([], []), "OP_NOP5": ([], []), "OP_NOP6": ([], []), "OP_NOP7": ([], []),
    "OP_NOP8": ([], []), "OP_NOP9": ([], []), "OP_NOP10": ([], []),
}
for _n in ["OP_0", "OP_1NEGATE"] + ["OP_%d" % k for k in range(1, 17)]:
    EFF[_n] = ([], [I])
WEIGHTED = list(EFF) + ["OP_2DUP", "OP_3DUP", "OP_2OVER", "OP_2ROT", "OP_2SWAP", "OP_NIP", "OP_OVER", "OP_ROT", "OP_SWAP", "OP_TUCK", "OP_DUP", "OP_SIZE", "OP_SPLIT"] * 2


def scriptnum(n):
    if n == 0:
        return b""
    r = bytearray()
    a = abs(n)
    while a:
        r.append(a & 255)
        a >>= 8
    if r[-1] & 0x80:
        r.append(0x80 if n < 0 else 0)
    elif n < 0:
        r[-1] |= 0x80
    return bytes(r)


class Cell:
    __slots__ = ("name", "typ", "ident", "integer")

    def __init__(self, name, typ, ident, integer=None):
        self.name, self.typ, self.ident, self.integer = name, typ, ident, integer  # name None: unnamed

    def like(self, **kw):
        c = Cell(self.name, self.typ, self.ident, self.integer)
        for k, v in kw.items():
            setattr(c, k, v)
        return c


class Item:
    """one written statement (or a brace): its text and what it means"""
    def __init__(self, kind, text, **kw):
        self.kind, self.text = kind, text  # kind: push op depth text none
        self.op = kw.get("op")
        self.value = kw.get("value")       # per parameter set, a list of bytes
        self.outs = kw.get("outs")         # declared output names or None
        self.args = kw.get("args")
        self.depth = kw.get("depth")       # (name, offset)
        self.cond = kw.get("cond")

    def copy(self):
        i = Item(self.kind, self.text)
        i.__dict__.update({k: (list(v) if isinstance(v, list) else v) for k, v in self.__dict__.items()})
        return i


LOWER = {I: "n", B: "q", Y: "y"}


class Program:
    pass


class Gen:
    def __init__(self, rng, pid):
        self.r = rng
        self.pid = pid
        self.items = []
        self.nident = 0
        self.retired = set()
        self.states = {}
        self.params = []  # (field, rust type, [rust expr per set], [bytes per set], typ)
        self.stats = {}
        self.nnames = 9    # how many names of each type are in use
        self.maxlevel = 4  # how deep conditionals nest
        self.ifrate = 0.12
        self.style = rng.choice(["plain"] * 5 + ["long", "long", "tail", "head", "case", "greek"])
        self.styles = {}
        self.shared = set()
        self.marks = []   # (number of items before, types of the top items, topmost first) for types_check.py

    def mark(self, act):
        zero = {v: 0 for v in act}
        ts = []
        while len(ts) < 3:
            c = self.top(act, len(ts), zero)
            if c is None:
                break
            ts.append((c.typ, c.integer is not None))
        self.marks.append((len(self.items), ts))

    def count(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def ident(self):
        self.nident += 1
        return "#%d" % self.nident

    # ---------------------------------------------------------------- state views
    def top(self, act, d, floor):
        """the cell d deep in every active variant, if they agree on it"""
        got = None
        for v in act:
            st = self.states[v][0]
            if len(st) - floor[v] <= d:
                return None
            c = st[-1 - d]
            if got is not None and (c.name != got.name or c.typ != got.typ):
                return None
            if got is not None and c.integer != got.integer:
                c = c.like(integer=None)
            got = c
        return got

    def popn(self, act, n):
        for v in act:
            st = self.states[v][0]
            del st[len(st) - n:]

    def push(self, act, c):
        for v in act:
            self.states[v][0].append(c)

    def nm(self, base):
        """names of a program: short ones, long ones that differ at their very end, ones that differ by an underscore or by case"""
        s, n = self.style, base
        if s == "plain":
            return n
        self.count("names: " + s)
        if s == "long":
            return base[0] + "_name_of_an_item" * self.styles.setdefault("n", self.r.choice([2, 2, 4, 8])) + base[1:]
        k, i = base[0], base[1:]
        if i.isdigit():
            j, m = divmod(int(i), 3)
            if s == "tail":
                n = k + str(j) + "_" * m
            elif s == "head":
                n = ["", "_", "_0"][m] + k + str(j)
            elif s == "case":
                n = [k, k.upper(), k + "X"][m] + str(j)
            elif s == "greek":
                n = k + ["", "\u03b1", "\u03b2"][m] + str(j)
        return n

    def fresh_name(self, typ):
        if self.r.random() < 0.06:
            # a name that usually belongs to items of another type, so that items of different types share it
            typ = self.r.choice([I, B, Y])
            self.count("name used across types")
        for _ in range(50):
            n = self.nm("%s%d" % (LOWER[typ], self.r.randrange(self.nnames)))
            if n not in self.retired:
                return n
        return "%sx%d" % (LOWER[typ], self.r.randrange(10 ** 6))

    # ---------------------------------------------------------------- statements
    def literal(self, typ):
        r = self.r
        ps = [p for p in self.params if p[4] == typ]
        if ps and r.random() < 0.5:
            f, ty, _, vals, _ = r.choice(ps)
            e = "params.%s" % f
            k = r.random()
            if ty == "i32" and k < 0.3:
                return "params.%s.wrapping_neg()" % f, [scriptnum(-v) for v in self.intvals[f]]
            if ty == "ByteArray" and k < 0.3:
                return "params.%s.clone()" % f, list(vals)
            if ty == "ByteArray" and k < 0.5:
                return "{ params.%s.clone() }" % f, list(vals)
            if ty == "bool" and k < 0.3:
                return "!params.%s" % f, [b"" if v else b"\x01" for v in vals]
            self.count("push of a parameter")
            return e, list(vals)
        if typ == I:
            n = r.choice([0, 1, 2, 5, 16, 17, -1, -2, 127, 128, -128, 255, 256, 32767, 32768, 65536, 0x7FFFFFFF, -0x7FFFFFFF, r.randrange(-10 ** 6, 10 ** 6)])
            return str(n), [scriptnum(n)] * 2
        if typ == B:
            b = r.random() < 0.5
            return ("true" if b else "false"), [b"\x01" if b else b""] * 2
        n = r.choice([0, 1, 1, 2, 3, 20, 33, 75, 76, 77, 255, 256])
        data = bytes(r.randrange(256) for _ in range(n))
        if n <= 3 and n > 0 and r.random() < 0.5:
            return "[%s]" % ", ".join("%du8" % x for x in data), [data] * 2
        if n == 1 and r.random() < 0.5:
            data = bytes([r.choice([0, 1, 5, 16, 17, 0x81, 0x80])])
        if r.random() < 0.4:
            return '&b"%s"[..]' % "".join("\\x%02x" % x for x in data), [data] * 2
        return '{ b"%s".to_vec() }' % "".join("\\x%02x" % x for x in data), [data] * 2

    def do_push(self, act, typ, name="?"):
        e, vals = self.literal(typ)
        if name == "?":
            name = self.fresh_name(typ) if self.r.random() < 0.8 else None
        if name is None and e.startswith("{"):
            e = e[2:-2]
        if name is None:
            self.items.append(Item("push", "%s;" % e, value=vals, outs=None))
        else:
            self.items.append(Item("push", "let %s = %s;" % (name, e), value=vals, outs=[name]))
        self.count("named push" if name else "unnamed push")
        self.push(act, Cell(name, typ, self.ident()))

    def callargs(self, ins, force_names=False):
        """how the arguments are written: None (no parentheses) or a list"""
        k = self.r.random()
        if k < 0.12 and not force_names:
            return None
        return [c.name if c.name is not None and (force_names or self.r.random() < 0.8) else "__" for c in ins]

    def do_op(self, act, op, floor):
        """one opcode on the active variants; pushes literals first where the stack does not fit"""
        ins, outs = EFF[op]
        n = len(ins)
        cells = [self.top(act, n - 1 - i, floor) for i in range(n)]
        def fits(cs):
            for i, (t, c) in enumerate(zip(ins, cs)):
                if c is None or (t in (I, B, Y) and c.typ != t) or (t == "=" and c.typ != cs[i - 1].typ):
                    return False
            return True
        if not fits(cells):
            prev = None
            for t in ins:
                t = self.r.choice([I, B, Y]) if t == "*" else prev if t == "=" else t
                prev = t
                src = [c for c in self.reachable(act) if c[1].typ == t]
                if src and self.r.random() < 0.4:
                    self.do_pick(act, floor, self.r.choice(src))
                else:
                    self.do_push(act, t)
            cells = [self.top(act, n - 1 - i, floor) for i in range(n)]
            if not fits(cells):
                return
        args = self.callargs(cells)
        typs = [cells[o].typ if isinstance(o, int) else o for o in outs]
        declared = None
        if outs and self.r.random() < 0.7:
            declared = []
            for o, t in zip(outs, typs):
                if isinstance(o, int) and self.r.random() < 0.35:
                    declared.append("__")
                else:
                    declared.append(self.fresh_name(t))
        call = op if args is None else "%s(%s)" % (op, ", ".join(args))
        if declared is None:
            text = call + ";"
        elif len(declared) == 1:
            text = "let %s = %s;" % (declared[0], call)
        else:
            text = "let (%s) = %s;" % (", ".join(declared), call)
        self.items.append(Item("op", text, op=op, outs=declared, args=args))
        self.count(op)
        self.popn(act, n)
        for i, (o, t) in enumerate(zip(outs, typs)):
            d = declared[i] if declared else None
            if isinstance(o, int) and (d is None or d == "__"):
                c = cells[o].like(ident=self.ident())
            else:
                c = Cell(d, t, self.ident())
            self.push(act, c)

    def reachable(self, act):
        """(depth, cell) of the topmost item of each name on which the active variants agree"""
        out = []
        first = self.states[act[0]][0]
        seen = set()
        for d in range(len(first)):
            c = first[-1 - d]
            if c.name is None or c.name in seen:
                continue
            seen.add(c.name)
            ok = True
            for v in act[1:]:
                st = self.states[v][0]
                at = next((k for k in range(len(st)) if st[-1 - k].name == c.name), None)
                if at != d or st[-1 - d].typ != c.typ:
                    ok = False
                    break
            if ok:
                out.append((d, c))
        return out

    def do_pick(self, act, floor, which=None, roll=None, name="?"):
        """depth_of/depth_of_offset + OP_PICK or OP_ROLL"""
        r = self.r
        cand = self.reachable(act)
        if not cand:
            return False
        d, c = which or r.choice(cand)
        off = 0
        # with an offset the item below the named one is meant
        target = c
        if which is None and r.random() < 0.2:
            k = r.randrange(1, 4) if r.random() < 0.6 else r.randrange(1, 300)
            k = max(1, min([k] + [len(self.states[v][0]) - 1 - d for v in act]))
            zero = {v: 0 for v in act}
            t = self.top(act, d + k, zero)
            if t is not None:
                off, target = k, t
        if roll is None:
            roll = r.random() < 0.4
        if roll and any(len(self.states[v][0]) - 1 - (d + off) < floor[v] for v in act):
            roll = False
        # a name of its own: the macro moves the Rust variable of the depth into OP_PICK, so it cannot be reused
        dn = "d%d" % len(self.items) if r.random() < 0.6 else None
        call = "depth_of(%s)" % c.name if not off else "depth_of_offset(%s, %d)" % (c.name, off)
        self.items.append(Item("depth", "let %s = %s;" % (dn, call) if dn else call + ";", depth=(c.name, off), outs=[dn] if dn else None))
        self.push(act, Cell(dn, I, dn or self.ident(), d + off))
        self.count("depth_of_offset" if off else "depth_of")
        # sometimes the depth moves on the stack before it is used
        moved = 0
        if r.random() < 0.2 and not roll:
            self.do_push(act, r.choice([I, B, Y]))
            args = None
            self.items.append(Item("op", "OP_SWAP;", op="OP_SWAP", outs=None, args=None))
            a, b = self.top(act, 1, {v: 0 for v in act}), self.top(act, 0, {v: 0 for v in act})
            self.popn(act, 2)
            self.push(act, b.like(ident=self.ident()))
            self.push(act, a.like(ident=self.ident()))
            moved = 1
            # the depth now means the item one higher
            zero = {v: 0 for v in act}
            target = self.top(act, d + off + 1, zero)
            if target is None:
                self.items.append(Item("op", "OP_DROP;", op="OP_DROP", outs=None, args=None))
                self.popn(act, 1)
                return True
        elif r.random() < 0.15:
            # or leaves for the alt stack and comes back, perhaps under other names
            zero = {v: 0 for v in act}
            if not (self.do_alt(act, zero, None, to=True) and self.do_alt(act, zero, {v: 0 for v in act}, to=False)):
                raise Retry()
            dn = self.top(act, 0, zero).name
            self.count("depth by way of the alt stack")
        op = "OP_ROLL" if roll else "OP_PICK"
        self.popn(act, 1)
        n = self.fresh_name(target.typ) if name == "?" and r.random() < 0.5 else None
        args = [dn] if dn and r.random() < 0.7 else None
        call = op if args is None else "%s(%s)" % (op, dn)
        self.items.append(Item("op", "let %s = %s;" % (n, call) if n else call + ";", op=op, outs=[n] if n else None, args=args))
        self.count(op)
        if roll:
            for v in act:
                st = self.states[v][0]
                del st[len(st) - 1 - (d + off)]
        self.push(act, target.like(name=n) if n else target.like())
        return True

    def do_alt(self, act, floor, altfloor, to=None):
        r = self.r
        if to is None:
            to = r.random() < 0.5
        if to:
            c = self.top(act, 0, floor)
            if c is None:
                return False
            n = self.fresh_name(c.typ) if r.random() < 0.3 else None
            args = [c.name] if c.name and r.random() < 0.7 else None
            call = "OP_TOALTSTACK" + ("(%s)" % args[0] if args else "")
            self.items.append(Item("op", "let %s = %s;" % (n, call) if n else call + ";", op="OP_TOALTSTACK", outs=[n] if n else None, args=args))
            self.popn(act, 1)
            for v in act:
                self.states[v][1].append(c.like(name=n) if n else c)
            self.count("OP_TOALTSTACK")
            return True
        got = None
        for v in act:
            al = self.states[v][1]
            if len(al) <= altfloor[v]:
                return False
            c = al[-1]
            if got is not None and (c.name != got.name or c.typ != got.typ):
                return False
            got = c if got is None or c.integer == got.integer else c.like(integer=None)
        n = self.fresh_name(got.typ) if r.random() < 0.3 else None
        args = [got.name] if got.name and r.random() < 0.7 else None
        call = "OP_FROMALTSTACK" + ("(%s)" % args[0] if args else "")
        self.items.append(Item("op", "let %s = %s;" % (n, call) if n else call + ";", op="OP_FROMALTSTACK", outs=[n] if n else None, args=args))
        for v in act:
            self.states[v][1].pop()
        self.push(act, got.like(name=n) if n else got)
        self.count("OP_FROMALTSTACK")
        return True

    def do_transmute(self, act, floor):
        c = self.top(act, 0, floor)
        if c is None or c.name is None or c.name[0] == "c":
            return
        for v in self.states:
            for cells in self.states[v]:
                for x in cells:
                    if x is not c and x.ident == c.ident:
                        return
        # what was on a stack where branches part or meet may be meant by another branch
        if any(self.states[v][0][-1].ident in self.shared for v in act):
            return
        idents = {self.states[v][0][-1].ident for v in act}
        if len(idents) != 1:
            return
        t = self.r.choice([I, B, Y])
        rt = {I: "Integer", B: "bool", Y: "ByteArray"}[t]
        k = self.r.random()
        self.items.append(Item("none", ("let %s = transmute(%s, %s);" if k < 0.5 else "transmute(%.0s%s, %s);") % (c.name, c.name, rt), args=None))
        self.count("transmute" + (" in a branch" if self.shared else ""))
        self.retired.add(c.name)
        self.popn(act, 1)
        self.push(act, c.like(typ=t))

    # ---------------------------------------------------------------- conditionals
    def snapshot(self):
        self.shared |= {x.ident for st in self.states.values() for cells in st for x in cells}
        return {v: (list(s), list(a)) for v, (s, a) in self.states.items()}

    def ensure_cond(self, act, floor, name):
        """a condition on top; name None: any"""
        if name is None:
            c = self.top(act, 0, floor)
            # (a condition that decides a variant is not asked for a second time inside its own branch)
            if c is None or c.name in self.condtypes or self.r.random() < 0.4:
                self.do_push(act, self.r.choice([I, B, Y]))
                c = self.top(act, 0, floor)
            return c
        c = self.top(act, 0, floor)
        if c is not None and c.name == name:
            return c
        have = [x for x in self.reachable(act) if x[1].name == name]
        if have and self.r.random() < 0.8:
            ok = all(len(self.states[v][0]) - 1 - have[0][0] >= floor[v] for v in act)
            self.do_pick(act, floor, have[0], roll=ok, name=None)
        else:
            typ = self.condtypes[name]
            self.do_push(act, typ, name)
        return self.top(act, 0, floor)

    def open_if(self, act, c):
        arg = c.name if c.name is not None else "__"
        self.items.append(Item("op", "OP_IF(%s);" % arg, op="OP_IF", outs=None, args=[arg], cond=arg))
        self.popn(act, 1)
        self.count("OP_IF")

    def brace(self, b):
        if self.braces:
            self.items.append(Item("text", b))

    def end_alt(self, act, altfloor, floor):
        while any(len(self.states[v][1]) > altfloor[v] for v in act):
            if not self.do_alt(act, floor, altfloor, to=False):
                return False
        return True

    def drop_to(self, act, height):
        while any(len(self.states[v][0]) > height[v] for v in act):
            self.items.append(Item("op", "OP_DROP;", op="OP_DROP", outs=None, args=None))
            self.popn(act, 1)

    def balanced_if(self, act, floor, level, name=None, then_act=None, else_act=None):
        r = self.r
        c = self.ensure_cond(act, floor, name)
        if c is None:
            return
        then_act = then_act or act
        else_act = else_act or act
        self.open_if(act, c)
        self.count("if depth %d" % level)
        k = r.randrange(3)
        while k and (any(self.top(act, j, floor) is None or self.top(act, j, floor).name in self.retired for j in range(k))):
            k -= 1
        height = {v: len(self.states[v][0]) - k for v in act}
        altheight = {v: len(self.states[v][1]) for v in act}
        has_else = r.random() < 0.75
        if not has_else and k:
            k = 0
            height = {v: len(self.states[v][0]) for v in act}
        before = self.snapshot()
        braces = self.braces
        self.braces = r.random() < 0.4
        # then
        self.brace("{")
        self.block(then_act, r.randrange(0, 5), level + 1, height, altheight)
        if not self.end_alt(then_act, altheight, height):
            raise Retry()
        if not has_else:
            self.drop_to(then_act, height)
        v0 = then_act[0]
        T = [(x.name, x.typ) for x in self.states[v0][0][height[v0]:]]
        for v in then_act:
            if [(x.name, x.typ) for x in self.states[v][0][height[v]:]] != T:
                raise Retry()
        if any(n in self.retired for n, _ in T if n):
            raise Retry()
        self.brace("}")
        after_then = self.snapshot()
        self.states = before
        if has_else:
            self.items.append(Item("op", "OP_ELSE;", op="OP_ELSE", outs=None, args=None))
            self.brace("{")
            self.block(else_act, r.randrange(0, 5), level + 1, height, altheight)
            if not self.end_alt(else_act, altheight, height):
                raise Retry()
            v0 = else_act[0]
            E = [(x.name, x.typ) for x in self.states[v0][0][height[v0]:]]
            for v in else_act:
                if [(x.name, x.typ) for x in self.states[v][0][height[v]:]] != E:
                    raise Retry()
            if E != T:
                self.drop_to(else_act, height)
                for n, t in T:
                    self.do_push(else_act, t, n)
            self.brace("}")
            self.count("if with else")
        self.items.append(Item("op", "OP_ENDIF;", op="OP_ENDIF", outs=None, args=None))
        self.braces = braces
        for v in then_act:
            if v not in else_act:
                self.states[v] = after_then[v]
        # numbers that differ between the branches must not be used as depths
        for v in act:
            st = self.states[v][0]
            for i in range(height[v], len(st)):
                st[i] = st[i].like(integer=None)

    def tree(self, act, leaves, conds, level):
        """variants: leaves is the list of (variant, path) under this node"""
        r = self.r
        zero = {v: 0 for v in act}
        if not conds or len(leaves) == 1:
            self.block(act, r.randrange(1, 6), level + 1, zero, zero)
            return
        self.block(act, r.randrange(0, 4), level + 1, zero, zero)
        name = conds[0]
        tl = [l for l in leaves if l[1][name]]
        el = [l for l in leaves if not l[1][name]]
        ta = sorted({l[0] for l in tl})
        ea = sorted({l[0] for l in el})
        if set(ta) & set(ea):
            self.balanced_if(act, zero, level + 1, name, ta, ea)
            self.count("balanced variant split")
            return
        c = self.ensure_cond(act, zero, name)
        if c is None or c.name != name:
            raise Retry()
        self.open_if(act, c)
        before = self.snapshot()
        braces = self.braces
        self.braces = r.random() < 0.4
        join = None
        if r.random() < 0.4:  # both branches leave an item of one name and type on the alt stack
            t = r.choice([I, B, Y])
            join = (t, self.fresh_name(t))

        def sub(ls, a):
            names = [n for n in conds[1:] if len({l[1].get(n) for l in ls}) > 1]
            self.brace("{")
            self.tree(a, ls, names, level + 1)
            if join:
                self.do_push(a, *join)
                if not self.do_alt(a, zero, zero, to=True):
                    raise Retry()
            self.brace("}")
        sub(tl, ta)
        after_then = self.snapshot()
        self.states = before
        self.items.append(Item("op", "OP_ELSE;", op="OP_ELSE", outs=None, args=None))
        sub(el, ea)
        self.items.append(Item("op", "OP_ENDIF;", op="OP_ENDIF", outs=None, args=None))
        self.braces = braces
        for v in ta:
            self.states[v] = after_then[v]
        self.count("free variant split")
        self.block(act, r.randrange(0, 3), level + 1, zero, zero)
        if join and r.random() < 0.8 and self.do_alt(act, zero, zero, to=False):
            self.count("alt stack item of a variant's branch")
            self.block(act, r.randrange(0, 3), level + 1, zero, zero)

    def block(self, act, n, level, floor, altfloor):
        r = self.r
        for _ in range(n):
            self.mark(act)
            k = r.random()
            if k < 0.22:
                self.do_push(act, r.choice([I, B, Y]))
            elif k < 0.66:
                self.do_op(act, r.choice(WEIGHTED), floor)
            elif k < 0.78:
                self.do_pick(act, floor)
            elif k < 0.86:
                self.do_alt(act, floor, altfloor)
            elif k < 0.88 and (level == 1 or r.random() < 0.5):
                if level > 1 or r.random() < 0.3:
                    self.do_push(act, r.choice([I, B, Y]), self.fresh_name(I))
                self.do_transmute(act, floor)
            elif level < self.maxlevel:
                self.balanced_if(act, floor, level)
            if self.ifrate > 0.12 and level < self.maxlevel and r.random() < self.ifrate - 0.12:
                self.balanced_if(act, floor, level)
        self.mark(act)

    def heap(self, act, n, floor):
        """n items, some of them on the alt stack"""
        r = self.r
        for _ in range(n):
            self.do_push(act, r.choice([I, B, Y]))
            if r.random() < 0.1:
                self.do_alt(act, floor, floor, to=True)


class Retry(Exception):
    pass


RT = {I: ["i32", "Integer"], B: ["bool"], Y: ["ByteArray"]}


def value_expr(rng, rt):
    """(rust expression, bytes pushed, python value)"""
    if rt in ("i32", "Integer"):
        n = rng.choice([0, 1, -1, 16, 17, 128, -255, 0x7FFFFFFF, -0x7FFFFFFF + 1, rng.randrange(-10 ** 7, 10 ** 7)])
        return ("%di32" % n if rt == "i32" else "Integer::new(%di32).unwrap()" % n), scriptnum(n), n
    if rt == "bool":
        b = rng.random() < 0.5
        return ("true" if b else "false"), (b"\x01" if b else b""), b
    n = rng.choice([0, 1, 2, 20, 32, 75, 76, 80])
    d = bytes(rng.randrange(256) for _ in range(n))
    if n == 1 and rng.random() < 0.5:
        d = bytes([rng.choice([0, 1, 16, 0x81])])
    return 'ByteArray::from(b"%s".as_ref())' % "".join("\\x%02x" % x for x in d), d, d


def program(rng, pid, scale=None):
    while True:
        try:
            return _program(rng, pid, scale)
        except Retry:
            continue


def scale(rng, pid):
    """a script that is large in one respect: statements, stack heights, inputs and parameters, nesting, variants"""
    return program(rng, pid, rng.choice(["long", "deep", "deep", "wide", "nested", "variants"]))


def _program(rng, pid, scale=None):
    g = Gen(rng, pid)
    if scale:
        g.count("scale: " + scale)
        g.nnames = 400
    if scale == "nested":
        g.maxlevel, g.ifrate = 12, 0.3
    g.braces = False
    g.intvals = {}
    g.condtypes = {}
    for i in range(rng.randrange(4, 14) if scale == "wide" else rng.randrange(0, 4)):
        typ = rng.choice([I, B, Y])
        rt = rng.choice(RT[typ])
        vals = [value_expr(rng, rt) for _ in range(2)]
        g.params.append(("p%d" % i, rt, [v[0] for v in vals], [v[1] for v in vals], typ))
        if typ == I:
            g.intvals["p%d" % i] = [v[2] for v in vals]
    variants = {}
    leaves = []
    g.condtypes = {}
    if scale == "variants" or (not scale and rng.random() < 0.45):
        conds = [g.nm("c%d" % i) for i in range(5)][: rng.choice([4, 5] if scale else [1, 2, 2, 3])]
        for c in conds:
            g.condtypes[c] = rng.choice([I, B, Y])
        paths = []
        def grow(path, rest):
            if not rest or (path and rng.random() < (0.08 if scale else 0.35)):
                paths.append(dict(path))
                return
            grow(dict(path, **{rest[0]: True}), rest[1:])
            grow(dict(path, **{rest[0]: False}), rest[1:])
        grow({}, conds)
        names = ["A", "Bee", "C", "D3", "Ex", "Fa", "G", "H"] + ["V%d" % i for i in range(24)]
        many = rng.choice([0, 0, 1, 2]) if scale else 0
        merged = len(paths) > 2 and rng.random() < 0.3
        for i, p in enumerate(paths):
            v = names[i]
            if merged and i == len(paths) - 1:
                v = names[rng.randrange(len(paths) - 1)]
            if many and i > 1 and rng.random() < 0.6:
                # a variant of several paths, all of them on one side of the first conditions
                near = [w for w, q in leaves if list(q.items())[:many] == list(p.items())[:many]]
                v = rng.choice(near) if near else v
            leaves.append((v, p))
        # every leaf must decide the conditions in order
        order = []
        for v, _ in leaves:
            if v not in order:
                order.append(v)
        rng.shuffle(order)
        for v in order:
            variants[v] = [p for w, p in leaves if w == v]
    names = list(variants) or ["In"]
    # inputs: variant-specific ones at the bottom, then the conditions of the lower levels, then the common ones, c0 on top
    inputs = []  # (name, rust type, typ, variants or None)
    used = set()
    def inp(typ, vs, name=None):
        for _ in range(40):
            n = name or g.nm("%s%d" % (LOWER[typ], rng.randrange(g.nnames)))
            if n not in used:
                used.add(n)
                inputs.append((n, rng.choice(RT[typ]), typ, vs))
                return
    for v in names:
        if variants:
            for _ in range(rng.randrange(0, 3)):
                vs = sorted({v} | ({rng.choice(names)} if rng.random() < 0.3 else set()))
                if len(vs) == len(names):
                    vs = [v]
                inp(rng.choice([I, B, Y]), vs)
    if variants:
        for c in reversed(list(g.condtypes)[1:]):
            vs = sorted({v for v, p in leaves if c in p})
            if rng.random() < 0.75:
                inp(g.condtypes[c], vs if len(vs) < len(names) or rng.random() < 0.5 else None, c)
    for _ in range(rng.randrange(9, 40) if scale == "wide" else rng.randrange(0, 5)):
        inp(rng.choice([I, B, Y]), None)
    if variants and rng.random() < 0.8:
        inp(g.condtypes[conds[0]], None, conds[0])
    for v in names:
        st = [Cell(n, t, n) for n, _, t, vs in inputs if vs is None or v in vs]
        g.states[v] = (st, [])
    zero = {v: 0 for v in names}
    if variants:
        g.tree(sorted(names), leaves, list(g.condtypes), 0)
    else:
        if scale == "deep":
            g.heap(names, rng.choice([18, 40, 127, 130, 200, 256, 300]), zero)
        g.block(names, rng.randrange(60, 200) if scale == "long" else rng.randrange(3, 14) + (20 if scale == "deep" else 0), 1, zero, zero)
        if rng.random() < 0.3:
            g.balanced_if(names, zero, 1)
    if len(g.items) > 400:
        raise Retry()
    if rng.random() < 0.08:
        g.items.append(Item("op", "OP_RETURN;", op="OP_RETURN", outs=None, args=None))
    p = Program()
    p.id, p.items, p.params, p.inputs, p.variants, p.names, p.stats, p.final = pid, g.items, g.params, inputs, variants, names, g.stats, g.states
    p.marks = g.marks
    p.by_ref = rng.random() < 0.3
    p.crate = rng.choice([None, None, "bch"])
    p.input_values = {}
    for v in names:
        p.input_values[v] = [(n, value_expr(rng, rt)) for n, rt, _, vs in inputs if vs is None or v in vs]
    return p


def predicate(paths):
    return "||".join("&&".join(("" if b else "!") + c for c, b in p.items()) for p in paths)


def attr(p, debug):
    a = ["In"]
    for v, paths in p.variants.items():
        a.append('%s = "%s"' % (v, predicate(paths)))
    if p.crate:
        a.insert(1 if hash(p.id) % 2 else len(a), 'crate = "%s"' % p.crate)
    if debug is not None:
        a.append("debug = %s" % ("true" if debug else "false"))
    return ", ".join(a)


def function(p, items, debug=None, inputs=None):
    args = ["params: %sP" % ("&" if p.by_ref else "")]
    for n, rt, _, vs in (p.inputs if inputs is None else inputs):
        args.append(("#[variant(%s)] " % ", ".join(vs) if vs is not None else "") + "%s: %s" % (n, rt))
    body = []
    ind = 1
    for it in items:
        if it.text == "}":
            ind -= 1
        body.append("    " * ind + it.text)
        if it.text == "{":
            ind += 1
    return "#[bitcoin_cash::script(%s)]\npub fn s(%s) {\n%s\n}\n" % (attr(p, debug), ", ".join(args), "\n".join(body))


def mutants(rng, p):
    """(what was broken, items) with one error each; every one of them is wrong for some variant"""
    out = []
    its = p.items
    ops = [i for i, x in enumerate(its) if x.kind == "op" and x.op not in ("OP_ELSE", "OP_ENDIF")]

    def with_(i, text):
        c = [x.copy() for x in its]
        c[i].text = text
        return c

    def relet(it, call):
        if it.outs is None:
            return call + ";"
        if len(it.outs) == 1:
            return "let %s = %s;" % (it.outs[0], call)
        return "let (%s) = %s;" % (", ".join(it.outs), call)

    named = [i for i in ops if its[i].args and any(a != "__" for a in its[i].args)]
    if named:
        i = rng.choice(named)
        it = its[i]
        k = rng.choice([j for j, a in enumerate(it.args) if a != "__"])
        pool = [n for n in ["y0", "y1", "n0", "n1", "q0", "q1", "zz"] + [c[0] for c in p.inputs] if n != it.args[k]]
        a = list(it.args)
        a[k] = rng.choice(pool)
        out.append(("wrong argument name", with_(i, relet(it, "%s(%s)" % (it.op, ", ".join(a))))))
        a = list(it.args)
        a.append("__" if rng.random() < 0.5 else a[-1])
        out.append(("one argument too many", with_(i, relet(it, "%s(%s)" % (it.op, ", ".join(a))))))
        out.append(("one argument too few", with_(i, relet(it, "%s(%s)" % (it.op, ", ".join(it.args[:-1]))))))
    swap = [i for i in ops if its[i].args and len({a for a in its[i].args if a != "__"}) > 1]
    if swap:
        i = rng.choice(swap)
        it = its[i]
        js = [j for j, a in enumerate(it.args) if a != "__"]
        a = list(it.args)
        for _ in range(20):
            x, y = rng.sample(js, 2)
            if a[x] != a[y]:
                a[x], a[y] = a[y], a[x]
                out.append(("arguments in the wrong order", with_(i, relet(it, "%s(%s)" % (it.op, ", ".join(a))))))
                break
    outs = [i for i in ops if its[i].op in EFF]
    if outs:
        i = rng.choice(outs)
        it = its[i]
        n = len(EFF[it.op][1])
        call = it.op if it.args is None else "%s(%s)" % (it.op, ", ".join(it.args))
        wrong = [w for w in (n + 1, n - 1, n + 2) if w > 0]
        w = rng.choice(wrong)
        ns = ["w%d" % j for j in range(w)]
        out.append(("wrong number of outputs", with_(i, "let %s = %s;" % (ns[0] if w == 1 else "(%s)" % ", ".join(ns), call))))
        out.append(("unknown opcode", with_(i, relet(it, call.replace("OP_", rng.choice(["OP_Z", "op_", "OPP_"]), 1)))))
    ends = [i for i, x in enumerate(its) if x.op == "OP_ENDIF"]
    if ends and not any(x.kind == "text" for x in its):
        i = rng.choice(ends)
        out.append(("conditional left open", its[:i] + its[i + 1:]))
        i = rng.choice([i for i, x in enumerate(its) if x.op == "OP_IF"])
        out.append(("OP_ENDIF without OP_IF", its[:i] + its[i + 1:]))
    out.append(("stray " + "OP_ENDIF", its + [Item("op", "OP_ENDIF;")]))
    out.append(("stray " + "OP_ELSE", its + [Item("op", "OP_ELSE;")]))
    elses = [i for i, x in enumerate(its) if x.op == "OP_ELSE"]
    if elses:
        # a second OP_ELSE right before the OP_ENDIF of the same conditional
        i = rng.choice(elses)
        lvl = 0
        for j in range(i + 1, len(its)):
            if its[j].op == "OP_IF":
                lvl += 1
            elif its[j].op == "OP_ENDIF":
                if lvl == 0:
                    if not any(x.kind == "text" for x in its[i:j]):
                        out.append(("second OP_ELSE", its[:j] + [Item("op", "OP_ELSE;")] + its[j:]))
                    break
                lvl -= 1
    if not p.variants:
        n = len(p.final[p.names[0]][0])
        out.append(("pop of an empty stack", its + [Item("op", "OP_DROP;")] * (n + 1)))
        if n >= 1:
            need, op = rng.choice([(2, "OP_SWAP"), (3, "OP_ROT"), (4, "OP_2SWAP"), (6, "OP_2ROT"), (2, "OP_2DUP"), (2, "OP_EQUALVERIFY"), (3, "OP_WITHIN")])
            keep = min(n, need - 1)
            out.append(("too few items for %s" % op, its + [Item("op", "OP_DROP;")] * (n - keep) + [Item("op", op + ";")]))
        m = len(p.final[p.names[0]][1])
        out.append(("pop of an empty alt stack", its + [Item("op", "OP_FROMALTSTACK;")] * (m + 1)))
        st = p.final[p.names[0]][0]
        if st and st[-1].name is None:
            out.append(("name for an unnamed item", its + [Item("op", "OP_DROP(y0);")]))
        out.append(("name used after its branch", its + [Item("op", "let k = 1;"), Item("op", "OP_IF(k);"), Item("op", "let inside = 5;"), Item("op", "OP_ENDIF;"), Item("op", "OP_DROP(inside);")]))
    else:
        tops = {v: (p.final[v][0][-1].name if p.final[v][0] else "-") for v in p.names}
        got = {t for t in tops.values() if t not in (None, "-")}
        if len(set(tops.values())) > 1 and got:
            out.append(("name of another variant", its + [Item("op", "OP_DROP(%s);" % rng.choice(sorted(got)))]))
        at = {}
        for v in p.names:
            seen = set()
            for d, c in enumerate(reversed(p.final[v][0])):
                if c.name is not None and c.name not in seen:
                    seen.add(c.name)
                    at.setdefault(c.name, []).append(d)
        odd = sorted(n for n, ds in at.items() if len(ds) == len(p.names) and len(set(ds)) > 1)
        if odd:
            out.append(("depth of an item that is not equally deep in all variants", its + [Item("op", "let z = depth_of(%s);" % rng.choice(odd))]))
        some = sorted(n for n, ds in at.items() if len(ds) < len(p.names))
        if some:
            out.append(("depth of an item that some variants do not have", its + [Item("op", "let z = depth_of(%s);" % rng.choice(some))]))
        shortest = min(len(p.final[v][0]) for v in p.names)
        out.append(("pop of an empty stack", its + [Item("op", "OP_DROP;")] * (shortest + 1)))
    out.append(("depth of an unknown name", its + [Item("op", "let z = depth_of(nosuchname);")]))
    out.append(("unknown function", its + [Item("op", "let z = depth_at(5);")]))
    if p.inputs:
        c = list(p.inputs)
        n, rt, t, vs = c[0]
        c[0] = (n, rt, t, ["Nowhere"])
        out.append(("unknown variant", (its, c)))
    rng.shuffle(out)
    return out


def uneven(rng, pid):
    """a script whose variants leave stacks of different height and shape behind, each with the depth of the same item for one OP_PICK or OP_ROLL"""
    levels = rng.choice([1, 1, 2])
    conds = ["c0", "c1"][:levels]
    paths = [{}]
    for c in conds:
        paths = [dict(p, **{c: b}) for p in paths for b in (True, False)]
    names = rng.sample(["A", "Bee", "C", "D3", "Ex", "Fa", "G", "H"], len(paths))
    p = Program()
    p.id, p.params, p.by_ref, p.crate, p.stats, p.marks = pid, [], rng.random() < 0.3, rng.choice([None, None, "bch"]), {"uneven stacks": 1}, []
    p.variants = {v: [path] for v, path in zip(names, paths)}
    p.names = names
    data = []
    for i in range(rng.randint(2, 5)):
        t = rng.choice([I, B, Y])
        data.append(("%s%d" % (LOWER[t], i), rng.choice(RT[t]), t, None))
    p.inputs = data + [(c, "bool", B, None) for c in reversed(conds)]
    p.input_values = {v: [(n, ("true" if p.variants[v][0][n] else "false", b"\x01" if p.variants[v][0][n] else b"", p.variants[v][0][n]) if n in conds else value_expr(rng, rt))
                          for n, rt, _, _ in p.inputs] for v in names}
    k = rng.randrange(len(data))
    target, typ = data[k][0], data[k][2]
    op = rng.choice(["OP_PICK", "OP_ROLL"])
    dname = rng.choice([None, "d"])
    rname = rng.choice([None, "m", target])
    items = []
    add = lambda text, op, outs=None, args=None: items.append(Item("op", text, op=op, outs=outs, args=args))
    depths = []  # positions of the depth statements
    extras = {}

    far = rng.choice([0, 0, 10, 125, 252])

    def leaf(path):
        n = rng.randint(0, 4) + (far if rng.random() < 0.7 else 0)
        ex = []
        for j in range(n):
            nm = rng.choice([None, "e%d" % j, "f%d" % j])
            v = rng.randint(2, 16)
            items.append(Item("push", "let %s = %d;" % (nm, v) if nm else "%d;" % v, value=[bytes([v])] * 2, outs=[nm] if nm else None))
            ex.append(nm)
        extras[tuple(sorted(path.items()))] = ex
        off = rng.randint(0, len(data) - 1 - k) if rng.random() < 0.4 else 0
        base = data[k + off][0]
        call = "depth_of(%s)" % base if off == 0 and rng.random() < 0.7 else "depth_of_offset(%s, %d)" % (base, off)
        depths.append(len(items))
        items.append(Item("depth", ("let %s = %s;" % (dname, call)) if dname else call + ";", depth=(base, off), outs=[dname] if dname else None))

    def tree(path, left):
        if not left:
            return leaf(path)
        c = left[0]
        add("OP_DUP(%s);" % c, "OP_DUP", None, [c])
        add("OP_TOALTSTACK(%s);" % c, "OP_TOALTSTACK", None, [c])
        add("OP_IF(%s);" % c, "OP_IF", None, [c])
        tree(dict(path, **{c: True}), left[1:])
        add("OP_ELSE;", "OP_ELSE")
        tree(dict(path, **{c: False}), left[1:])
        add("OP_ENDIF;", "OP_ENDIF")
    tree({}, conds)
    call = "%s(%s)" % (op, dname) if dname and rng.random() < 0.6 else op
    add("let %s = %s;" % (rname, call) if rname else call + ";", op, [rname] if rname else None, [dname] if "(" in call else None)
    moved = rname or target
    parted = len(items) - 1
    use = rng.choice({I: ["OP_1ADD", "OP_NEGATE", "OP_ABS"], B: ["OP_NOT"], Y: ["OP_SHA256", "OP_HASH160", "OP_REVERSEBYTES"]}[typ] + ["OP_DUP"])
    used = len(items)
    add("%s(%s);" % (use, moved) if rng.random() < 0.7 else use + ";", use, None, [moved])
    if items[-1].text == use + ";":
        items[-1].args = None
    add("OP_DROP;", "OP_DROP")
    if use == "OP_DUP":
        add("OP_DROP;", "OP_DROP")
    for c in reversed(conds):
        add("OP_FROMALTSTACK(%s);" % c, "OP_FROMALTSTACK", None, [c])

    def clean(path, left):
        if not left:
            for nm in reversed(extras[tuple(sorted(path.items()))]):
                add("OP_DROP(%s);" % nm if nm else "OP_DROP;", "OP_DROP", None, [nm] if nm else None)
            return
        c = left[0]
        add("OP_IF(%s);" % c, "OP_IF", None, [c])
        clean(dict(path, **{c: True}), left[1:])
        add("OP_ELSE;", "OP_ELSE")
        clean(dict(path, **{c: False}), left[1:])
        add("OP_ENDIF;", "OP_ENDIF")
    clean({}, conds)
    rest = [n for n, _, _, _ in data if not (op == "OP_ROLL" and n == target)]
    for n in reversed(rest):
        add("OP_DROP(%s);" % n, "OP_DROP", None, [n])
    p.items = items
    p.final = {v: ([], []) for v in names}
    # single errors of this kind of script
    p.own_mutants = []
    if len({len(e) for e in extras.values()}) > 1:
        c = [x.copy() for x in items]
        c.insert(parted, Item("op", "depth_of(%s);" % rng.choice([n for n, _, _, _ in data])))
        c.insert(parted + 1, Item("op", "OP_DROP;"))
        p.own_mutants.append(("depth of an item that is not equally deep in all variants", c))
    i = rng.choice(depths)
    others = [n for n, _, _, _ in data if n != target]
    o = rng.choice(others)
    c = [x.copy() for x in items]
    c[i].text = ("let %s = depth_of(%s);" % (dname, o)) if dname else "depth_of(%s);" % o
    p.own_mutants.append(("%s of another item in one variant" % op, c))
    if op == "OP_ROLL":
        c = [x.copy() for x in items]
        c.append(Item("op", "depth_of(%s);" % target))
        p.own_mutants.append(("depth of an item that was rolled away", c))
    else:
        c = [x.copy() for x in items]
        c[used].text = "%s(%s);" % (use, o)
        p.own_mutants.append(("wrong name for the picked item", c))
    return p

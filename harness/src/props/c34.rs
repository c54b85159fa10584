//! C34 Values are equal, ordered and hashed by their content, whatever their provenance
use super::c12::{gen_hash, gen_prefix, ty};
use super::c15::{gen_annotated, gen_flags, gen_tree};
use super::util::*;
use crate::framework::*;
use crate::oracle::hex;
use crate::prng::Gen;
use crate::{ensure, same};
use bitcoin_cash::*;
use bitcoin_cash_slp::*;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

/// bytes that differ from `d` in one place or not at all
fn near(g: &mut Gen, d: &[u8], fixed: bool) -> Vec<u8> {
    let mut v = d.to_vec();
    let n = v.len();
    match g.below(if fixed { 6 } else { 10 }) {
        0 | 1 => {}
        2 if n > 0 => v[0] ^= 1 << g.below(8),
        3 if n > 0 => v[n - 1] ^= 1 << g.below(8),
        4 if n > 0 => {
            let p = g.below(n);
            v[p] ^= 1 << g.below(8);
        }
        5 => v.reverse(),
        6 => v.push(0),
        7 => {
            v.pop();
        }
        8 => v.insert(0, 0),
        9 if n > 1 => {
            let p = g.below(n - 1);
            v.swap(p, p + 1);
        }
        _ => {}
    }
    v
}
/// a byte string of these bytes, made in some way
fn form(g: &mut Gen, d: &[u8]) -> ByteArray {
    let n = d.len();
    match g.below(9) {
        0 => ByteArray::from_slice_unnamed(d),
        1 => d.to_vec().into(),
        2 => ByteArray::new("some name", d.to_vec()),
        3 => {
            let at = g.below(n + 1);
            ba(&d[..at]).named("head").concat(ba(&d[at..]))
        }
        4 => {
            let k = 1 + g.below(9);
            ByteArray::from_parts(d.chunks(k).map(|x| ba(x)).collect::<Vec<_>>())
        }
        5 => {
            let m = g.below(5);
            let long = [d, &vec![7; m][..]].concat();
            ba(&long).split(n).unwrap().0
        }
        6 => {
            let f = *g.pick(&super::c15::FUNCTIONS);
            let x = gen_tree(g, &mut vec![], 2);
            x.apply_function(d.to_vec(), f)
        }
        7 => {
            let a: std::sync::Arc<[u8]> = d.to_vec().into();
            ByteArray::from_preimage(a, None, Function::Plain, Some(vec![].into()))
        }
        _ => serde_json::from_str(&format!("\"{}\"", hex(d))).unwrap(),
    }
}
fn h<T: Hash>(x: &T) -> u64 {
    let mut s = DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}
/// equality as it must be
fn eq<T: PartialEq + Debug>(c: &mut Case, what: &str, a: &T, b: &T, want: bool) -> R {
    ensure!((a == b) == want, "{}: {:?} {} {:?}", what, a, if want { "!=" } else { "==" }, b);
    ensure!((b == a) == want, "{}: equality of {:?} and {:?} is not symmetric", what, a, b);
    ensure!((a != b) != want, "{}: == and != of {:?} and {:?} agree", what, a, b);
    ensure!(a == a && b == b, "{}: not equal to itself", what);
    c.class(format!("{} {}", what, if want { "equal" } else { "different" }));
    c.saw(3);
    Ok(())
}
fn eqh<T: PartialEq + Eq + Hash + Debug>(c: &mut Case, what: &str, a: &T, b: &T, want: bool) -> R {
    eq(c, what, a, b, want)?;
    if want {
        same!(format!("{}: hash of {:?} and {:?}", what, a, b), h(a), h(b));
    }
    let mut s = HashSet::new();
    s.insert(a);
    ensure!(s.contains(b) == want, "{}: a set of {:?} {} {:?}", what, a, if want { "does not find" } else { "finds" }, b);
    Ok(())
}
fn ord<T: Ord + Debug>(c: &mut Case, what: &str, a: &T, b: &T, want: Ordering) -> R {
    same!(format!("{}: cmp of {:?} and {:?}", what, a, b), a.cmp(b), want);
    same!(format!("{}: cmp of {:?} and {:?}", what, b, a), b.cmp(a), want.reverse());
    same!(format!("{}: partial_cmp of {:?} and {:?}", what, a, b), a.partial_cmp(b), Some(want));
    same!(format!("{}: {:?} < {:?}", what, a, b), (a < b, a <= b, a > b, a >= b), (want == Ordering::Less, want != Ordering::Greater, want == Ordering::Greater, want != Ordering::Less));
    c.saw(4);
    Ok(())
}
/// an order nobody wrote down: total, agreeing with equality, the same each time
fn lawful<T: Ord + Eq + Debug>(c: &mut Case, what: &str, a: &T, b: &T, z: &T) -> R {
    same!(format!("{}: cmp of {:?} and {:?} and equality", what, a, b), a.cmp(b) == Ordering::Equal, a == b);
    let w = a.cmp(b);
    ord(c, what, a, b, w)?;
    if a <= b && b <= z {
        ensure!(a <= z, "{}: {:?} <= {:?} <= {:?} is not transitive", what, a, b, z);
    }
    if a >= b && b >= z {
        ensure!(a >= z, "{}: {:?} >= {:?} >= {:?} is not transitive", what, a, b, z);
    }
    Ok(())
}
fn fixed<H: Hashed + Eq + Hash + Debug>(g: &mut Gen, c: &mut Case, what: &str, n: usize) -> R {
    let d = g.bytes(n);
    let e = near(g, &d, true);
    c.input(format!("{} {} {}", what, hex(&d), hex(&e)));
    let mk = |g: &mut Gen, d: &[u8]| match g.below(4) {
        0 => H::from_slice(d).unwrap(),
        1 => H::from_slice_le(&d.iter().rev().cloned().collect::<Vec<_>>()).unwrap(),
        2 => H::from_hex_le(&hex(&d.iter().rev().cloned().collect::<Vec<_>>())).unwrap(),
        _ => H::from_byte_array(form(g, d)).unwrap(),
    };
    let (a, b) = (mk(g, &d), mk(g, &e));
    eqh(c, what, &a, &b, d == e)?;
    // a hash computed and the same hash read
    let m = g.bytes(n);
    let x = H::digest(form(g, &m));
    let y = mk(g, x.as_slice());
    eqh(c, what, &x, &y, true)
}
// what two values must have in common, written down independently of the library's comparison
fn op_key(o: &Op) -> String {
    match o {
        Op::Code(x) => format!("code {}", *x as u8),
        Op::Invalid(x) => format!("invalid {}", x),
        Op::PushBoolean(x) => format!("bool {}", x),
        Op::PushInteger(x) => format!("int {}", x.value()),
        Op::PushByteArray { array, .. } => format!("bytes {}", hex(array)),
    }
}
fn script_key(s: &Script) -> String {
    s.ops().iter().map(|o| op_key(&o.op)).collect::<Vec<_>>().join(",")
}
fn outpoint_key(p: &TxOutpoint) -> String {
    format!("{}:{}", hex(p.tx_hash.as_slice()), p.vout)
}
fn input_key(i: &TxInput) -> String {
    format!(
        "{} [{}] {} {:?} {:?} {:?} {:?}",
        outpoint_key(&i.prev_out),
        script_key(&i.script),
        i.sequence,
        i.lock_script.as_ref().map(script_key),
        i.value,
        i.is_p2sh,
        i.sig_hash_flags.as_ref().map(|f| f.iter().map(|x| x.bits()).collect::<Vec<_>>())
    )
}
fn output_key(o: &TxOutput) -> String {
    format!("{} [{}]", o.value, script_key(&o.script))
}
fn tx_key(t: &UnhashedTx) -> String {
    format!("{} {:?} {:?} {}", t.version, t.inputs.iter().map(input_key).collect::<Vec<_>>(), t.outputs.iter().map(output_key).collect::<Vec<_>>(), t.lock_time)
}
/// the same operation with other annotations, push form and provenance
fn dressed(g: &mut Gen, o: &Op) -> Op {
    match o {
        Op::PushByteArray { array, is_minimal } => Op::PushByteArray { array: form(g, array), is_minimal: is_minimal ^ g.chance(1, 2) },
        o => o.clone(),
    }
}
fn retagged(g: &mut Gen, o: &TaggedOp) -> TaggedOp {
    let mut t = TaggedOp::from_op(dressed(g, &o.op));
    if g.chance(1, 2) {
        t.src_line = g.u32();
        t.src_file = "elsewhere".into();
        t.pushed_names = Some(vec![None, Some("n".into())]);
    }
    t
}
fn rescript(g: &mut Gen, s: &Script) -> Script {
    Script::new(s.ops().iter().map(|o| retagged(g, o)).collect::<Vec<_>>())
}
/// an operation close to this one, or this one
fn near_op(g: &mut Gen, o: &Op) -> Op {
    match o {
        Op::Code(x) => match g.below(4) {
            0 => Op::Invalid(*x as u8),
            1 => Op::Code(Opcode::OP_NOP),
            2 if *x as u8 > 0x50 && *x as u8 <= 0x60 => Op::PushInteger(Integer::new(*x as i32 - 0x50).unwrap()),
            _ => o.clone(),
        },
        Op::Invalid(b) => Op::Invalid(b ^ g.below(2) as u8),
        Op::PushBoolean(b) => match g.below(3) {
            0 => Op::PushBoolean(!b),
            1 => Op::PushInteger(Integer::new(*b as i32).unwrap()),
            _ => o.clone(),
        },
        Op::PushInteger(i) => match g.below(4) {
            0 => Op::PushByteArray { array: crate::oracle::scriptnum(i.value() as i64).into(), is_minimal: true },
            1 => Op::PushInteger(Integer::new(i.value() ^ if i.value() < 0 { 0 } else { 1 }).unwrap()),
            2 => Op::PushInteger(Integer::new(-i.value()).unwrap()),
            _ => o.clone(),
        },
        Op::PushByteArray { array, is_minimal } => {
            let v = near(g, array, false);
            Op::PushByteArray { array: form(g, &v), is_minimal: *is_minimal }
        }
    }
}
fn near_script(g: &mut Gen, s: &Script) -> Script {
    let mut ops: Vec<TaggedOp> = s.ops().iter().map(|o| retagged(g, o)).collect();
    let n = ops.len();
    match g.below(6) {
        0 if n > 0 => {
            let p = g.below(n);
            ops[p] = TaggedOp::from_op(near_op(g, &ops[p].op));
        }
        1 if n > 0 => {
            ops.remove(g.below(n));
        }
        2 => ops.insert(g.below(n + 1), TaggedOp::from_op(gen_op(g, false))),
        3 if n > 1 => {
            let p = g.below(n - 1);
            ops.swap(p, p + 1);
        }
        4 if n > 0 => {
            let p = n - 1;
            ops[p] = TaggedOp::from_op(near_op(g, &ops[p].op));
        }
        _ => {}
    }
    Script::new(ops)
}
fn near_outpoint(g: &mut Gen, p: &TxOutpoint) -> TxOutpoint {
    let d = near(g, p.tx_hash.as_slice(), true);
    TxOutpoint { tx_hash: Sha256d::from_byte_array(form(g, &d)).unwrap(), vout: p.vout ^ if g.chance(1, 3) { 1 << g.below(32) } else { 0 } }
}
fn opt<T: Clone>(g: &mut Gen, x: &Option<T>, f: impl Fn(&mut Gen) -> T) -> Option<T> {
    match g.below(3) {
        0 => None,
        1 => Some(f(g)),
        _ => x.clone(),
    }
}
fn near_input(g: &mut Gen, i: &TxInput) -> TxInput {
    let mut x = i.clone();
    x.script = rescript(g, &x.script);
    x.lock_script = x.lock_script.as_ref().map(|s| rescript(g, s));
    match g.below(9) {
        0 => x.prev_out = near_outpoint(g, &x.prev_out),
        1 => x.script = near_script(g, &x.script),
        2 => x.sequence ^= 1 << g.below(32),
        3 => {
            x.lock_script = match &x.lock_script {
                Some(s) if g.chance(2, 3) => Some(near_script(g, s)),
                Some(_) => None,
                None => Some(Script::new(vec![])),
            }
        }
        4 => x.value = opt(g, &x.value, |g| g.edge_u64()),
        5 => x.is_p2sh = opt(g, &x.is_p2sh, |g| g.chance(1, 2)),
        6 => {
            x.sig_hash_flags = opt(g, &x.sig_hash_flags, |g| {
                let n = g.below(3);
                (0..n).map(|_| gen_flags(g)).collect()
            })
        }
        _ => {}
    }
    x
}
fn near_output(g: &mut Gen, o: &TxOutput) -> TxOutput {
    let mut x = o.clone();
    x.script = rescript(g, &x.script);
    match g.below(4) {
        0 => x.value ^= 1 << g.below(64),
        1 => x.script = near_script(g, &x.script),
        _ => {}
    }
    x
}
fn near_tx(g: &mut Gen, t: &UnhashedTx) -> UnhashedTx {
    let mut x = t.clone();
    for i in &mut x.inputs {
        i.script = rescript(g, &i.script);
    }
    let (ni, no) = (x.inputs.len(), x.outputs.len());
    match g.below(11) {
        0 => x.version ^= 1 << g.below(32),
        1 => x.lock_time ^= 1 << g.below(32),
        2 if ni > 0 => {
            let p = g.below(ni);
            x.inputs[p] = near_input(g, &x.inputs[p]);
        }
        3 if no > 0 => {
            let p = g.below(no);
            x.outputs[p] = near_output(g, &x.outputs[p]);
        }
        4 if ni > 0 => {
            x.inputs.pop();
        }
        5 if no > 0 => {
            x.outputs.pop();
        }
        6 if ni > 1 => x.inputs.swap(0, ni - 1),
        7 if no > 1 => x.outputs.swap(0, no - 1),
        8 if ni > 0 => {
            let i = x.inputs[0].clone();
            x.inputs.push(i);
        }
        _ => {}
    }
    x
}
fn pairs(g: &mut Gen, c: &mut Case, i: u64) -> R {
    match i % 14 {
        0 | 1 => {
            let n = if g.chance(1, 40) { 300 + g.below(9000) } else { g.edge_len(false).min(300) };
            let d = g.bytes(n);
            let e = near(g, &d, false);
            c.input(format!("byte strings {} {}", hex(&d), hex(&e)));
            let (a, b) = (form(g, &d), form(g, &e));
            eqh(c, "byte string", &a, &b, d == e)
        }
        2 => match g.below(5) {
            0 => fixed::<Sha1>(g, c, "Sha1", 20),
            1 => fixed::<Ripemd160>(g, c, "Ripemd160", 20),
            2 => fixed::<Sha256>(g, c, "Sha256", 32),
            3 => fixed::<Sha256d>(g, c, "Sha256d", 32),
            _ => fixed::<Hash160>(g, c, "Hash160", 20),
        },
        3 => {
            let d = g.arr32();
            let e = near(g, &d, true);
            c.input(format!("fixed {} {}", hex(&d), hex(&e)));
            let mk = |d: &[u8]| FixedByteArrayBE::<[u8; 32]>::from_slice_unnamed(d).unwrap();
            eqh(c, "fixed byte string", &mk(&d).named("x"), &mk(&e), d[..] == e[..])?;
            let id = |g: &mut Gen, d: &[u8]| TokenId::from_hash(Sha256d::from_byte_array(form(g, d)).unwrap());
            let (a, b) = (id(g, &d), id(g, &e));
            eqh(c, "token id", &a, &b, d[..] == e[..])
        }
        4 => {
            let d = g.bytes(33);
            let e = near(g, &d, true);
            c.input(format!("keys {} {}", hex(&d), hex(&e)));
            let (a, b) = (Pubkey::from_slice(&d), Pubkey::from_slice(&e));
            eqh(c, "key", &a, &b, d == e)?;
            ord(c, "key", &a, &b, d.cmp(&e))
        }
        5 | 6 => {
            let p = TxOutpoint { tx_hash: Sha256d::new(g.arr32()), vout: g.edge_u32() };
            let q = near_outpoint(g, &p);
            c.input(format!("{:?} {:?}", p, q));
            eq(c, "outpoint", &p, &q, outpoint_key(&p) == outpoint_key(&q))?;
            let (v, w) = (g.edge_u64(), g.edge_u64());
            let a = UnsignedTxInput { prev_out: p.clone(), sequence: g.edge_u32(), value: v };
            let b = UnsignedTxInput { prev_out: q.clone(), sequence: a.sequence ^ g.below(2) as u32, value: if g.chance(1, 2) { v } else { w } };
            eq(c, "unsigned input", &a, &b, outpoint_key(&p) == outpoint_key(&q) && a.sequence == b.sequence && a.value == b.value)
        }
        7 => {
            let (p, hash, p2sh) = (gen_prefix(g), gen_hash(g), g.chance(1, 2));
            let a = Address::from_hash(p.clone(), ty(p2sh), Hash160::new(hash));
            let e = near(g, &hash, true);
            let (q, sh) = (if g.chance(1, 3) { gen_prefix(g) } else { p.clone() }, p2sh ^ g.chance(1, 4));
            let other = Address::from_hash(q.clone(), ty(sh), Hash160::from_byte_array(form(g, &e)).unwrap());
            let b = match g.below(5) {
                0 => Address::from_cash_addr(other.cash_addr().to_string()).map_err(|e| e.to_string())?,
                1 => other.to_owned_address(),
                2 => other.clone().into_owned_address(),
                3 => other.clone(),
                _ => match Prefix::from_prefix_str(&q) {
                    Some(k) => Address::from_hash(k, ty(sh), Hash160::from_byte_array(form(g, &e)).unwrap()),
                    None => other.clone(),
                },
            };
            c.input(format!("{:?} {:?}", a, b));
            eqh(c, "address", &a, &b, p == q && hash[..] == e[..] && p2sh == sh)?;
            eqh(c, "address", &other, &b, true)?;
            // copies of an address read from another notation
            let text = match g.below(3) {
                0 => a.cash_addr().to_uppercase(),
                1 if p == "bitcoincash" => a.cash_addr()[12..].to_string(),
                _ => a.cash_addr().to_string(),
            };
            let r = Address::from_cash_addr(text.as_str()).map_err(|e| e.to_string())?;
            let (x, y) = (r.to_owned_address(), r.clone().into_owned_address());
            same!("texts of copies of an address", (x.cash_addr(), y.cash_addr()), (r.cash_addr(), r.cash_addr()));
            eqh(c, "owned address", &r, &x, true)?;
            eqh(c, "owned address", &r, &y, true)
        }
        8 => {
            let o = gen_op(g, false);
            let p = near_op(g, &o);
            c.input(format!("{:?} {:?}", o, p));
            let want = op_key(&o) == op_key(&p);
            eq(c, "operation", &o, &p, want)?;
            let d = dressed(g, &o);
            eq(c, "operation", &o, &d, true)?;
            let (a, b) = (TaggedOp::from_op(o.clone()), retagged(g, &TaggedOp::from_op(p.clone())));
            eq(c, "annotated operation", &a, &b, want)?;
            let (a, b) = (PatternOp::from(&o), PatternOp::from(&p));
            ensure!((a == b) == want, "patterns {:?} and {:?} compare as {}", a, b, a == b);
            Ok(())
        }
        9 => {
            let s = super::c15::gen_script(g, &mut vec![], 8, 2);
            let t = near_script(g, &s);
            c.input(format!("{:?} {:?}", script_key(&s), script_key(&t)));
            eq(c, "script", &s, &t, script_key(&s) == script_key(&t))
        }
        10 | 11 => {
            let t = gen_annotated(g, 3, 2);
            let u = near_tx(g, &t);
            c.input(clip(&format!("{} / {}", tx_key(&t), tx_key(&u)), 8000));
            if let Some(i) = t.inputs.first() {
                let j = near_input(g, i);
                eq(c, "input", i, &j, input_key(i) == input_key(&j))?;
            }
            if let Some(o) = t.outputs.first() {
                let p = near_output(g, o);
                eq(c, "output", o, &p, output_key(o) == output_key(&p))?;
            }
            eq(c, "transaction", &t, &u, tx_key(&t) == tx_key(&u))
        }
        12 => {
            let a = super::c22::slp_token(g);
            let mut b = a;
            match g.below(4) {
                0 => b.amount ^= 1 << g.below(64),
                1 => b.is_mint_baton ^= true,
                2 => b.action = super::c22::slp_token(g).action,
                _ => {}
            }
            let z = if g.chance(1, 2) { SlpToken { amount: a.amount, ..super::c22::slp_token(g) } } else { super::c22::slp_token(g) };
            c.input(format!("{:?} {:?} {:?}", a, b, z));
            eqh(c, "SLP token", &a, &b, a.amount == b.amount && a.is_mint_baton == b.is_mint_baton && a.action as u8 == b.action as u8)?;
            lawful(c, "SLP token", &a, &b, &z)?;
            lawful(c, "SLP action", &a.action, &b.action, &z.action)
        }
        _ => {
            let f = |g: &mut Gen| SigHashFlags::from_u8(g.u8());
            let a = f(g);
            let b = SigHashFlags::from_u8(a.bits() as u8 ^ if g.chance(1, 2) { 0 } else { 1 << g.below(8) });
            c.input(format!("{:?} {:?}", a, b));
            eqh(c, "hash type", &a, &b, a.bits() == b.bits())?;
            ord(c, "hash type", &a, &b, a.bits().cmp(&b.bits()))?;
            let t = |g: &mut Gen| {
                let n = *g.pick(&[0u16, 1, 2, 3, 0x100, 0x7fff, 0x8000, 0xffff]);
                if g.chance(1, 2) { CsvTimedelta::Blockheight(n) } else { CsvTimedelta::Seconds512(n) }
            };
            let (x, y, z) = (t(g), t(g), t(g));
            let key = |x: &CsvTimedelta| x.sequence();
            eq(c, "relative lock time", &x, &y, key(&x) == key(&y))?;
            lawful(c, "relative lock time", &x, &y, &z)?;
            if key(&x) & 0x40_0000 == key(&y) & 0x40_0000 {
                ord(c, "relative lock times of one unit", &x, &y, key(&x).cmp(&key(&y)))?;
            }
            Ok(())
        }
    }
}
/// maps and sets of library values against a model keyed by bytes
fn maps(g: &mut Gen, c: &mut Case) -> R {
    let steps = g.range(5, 120);
    // few different contents, many forms of each
    let contents: Vec<Vec<u8>> = {
        let n = g.range(1, 8);
        let base = g.bytes(33);
        (0..n).map(|_| near(g, &base, true)).collect()
    };
    let mut model: BTreeMap<Vec<u8>, usize> = BTreeMap::new();
    let mut m1: HashMap<ByteArray, usize> = HashMap::new();
    let mut m2: HashMap<Sha256d, usize> = HashMap::new();
    let mut m3: HashMap<TokenId, usize> = HashMap::new();
    let mut m4: BTreeMap<Pubkey, usize> = BTreeMap::new();
    let mut m5: HashMap<Pubkey, usize> = HashMap::new();
    let mut log = String::new();
    // 32-byte values hold the first 32 bytes; keep only contents those tell apart
    let mut seen = BTreeSet::new();
    let contents: Vec<Vec<u8>> = contents.into_iter().filter(|d| seen.insert(d[..32].to_vec())).collect();
    for k in 0..steps {
        let d = g.pick(&contents).clone();
        let (b, s) = (form(g, &d), Sha256d::from_byte_array(form(g, &d[..32])).unwrap());
        let t = TokenId::from_hash(Sha256d::from_byte_array(form(g, &d[..32])).unwrap());
        let p = Pubkey::from_slice(&d);
        let got = match g.below(4) {
            0 | 1 => {
                log.push_str(&format!("put {}.. ", hex(&d[..2])));
                let w = model.insert(d.clone(), k);
                (w, [m1.insert(b, k), m2.insert(s, k), m3.insert(t, k), m4.insert(p, k), m5.insert(p, k)])
            }
            2 => {
                log.push_str(&format!("remove {}.. ", hex(&d[..2])));
                (model.remove(&d), [m1.remove(&b), m2.remove(&s), m3.remove(&t), m4.remove(&p), m5.remove(&p)])
            }
            _ => {
                log.push_str(&format!("get {}.. ", hex(&d[..2])));
                (model.get(&d).cloned(), [m1.get(&b).cloned(), m2.get(&s).cloned(), m3.get(&t).cloned(), m4.get(&p).cloned(), m5.get(&p).cloned()])
            }
        };
        c.input(format!("{:?} {}", contents.iter().map(|d| hex(d)).collect::<Vec<_>>(), log));
        for (i, x) in got.1.iter().enumerate() {
            same!(format!("step {} in map {}", k, i), *x, got.0);
        }
        same!("sizes", [m1.len(), m2.len(), m3.len(), m4.len(), m5.len()], [model.len(); 5]);
    }
    same!("order of keys", m4.keys().map(|k| hex(k.as_slice())).collect::<Vec<_>>(), model.keys().map(|k| hex(k)).collect::<Vec<_>>());
    c.saw(6 * steps);
    Ok(())
}
pub fn run(ctx: &mut Ctx) {
    ctx.rule("pairs of values of every comparable type that are the same, made in different ways, or differ in one place; equality, hash, order and their symmetry judged against the contents; histories of maps and sets keyed by library values against a model keyed by bytes");
    ctx.phase("pairs", 60_000, 3_000_000, |g, c, i| pairs(g, c, i));
    ctx.phase("maps and sets", 3_000, 150_000, |g, c, _| maps(g, c));
    ctx.exhaustive("opcodes", 256, |_, c, i| {
        let ops = all_opcodes();
        c.input(format!("opcodes against {:02x}", i));
        for a in ops.iter().filter(|o| **o as u8 == i as u8) {
            for b in &ops {
                eqh(c, "opcode", a, b, *a as u8 == *b as u8)?;
                ord(c, "opcode", a, b, (*a as u8).cmp(&(*b as u8)))?;
            }
        }
        Ok(())
    });
    ctx.exhaustive("every byte of a key", 33 * 8, |g, c, i| {
        let d = g.bytes(33);
        let mut e = d.clone();
        e[i as usize / 8] ^= 1 << (i % 8);
        c.input(format!("{} {}", hex(&d), hex(&e)));
        let (a, b) = (Pubkey::from_slice(&d), Pubkey::from_slice(&e));
        eqh(c, "key", &a, &b, false)?;
        ord(c, "key", &a, &b, d.cmp(&e))?;
        let p = TxOutpoint { tx_hash: Sha256d::from_slice(&d[..32]).unwrap(), vout: d[32] as u32 };
        let q = TxOutpoint { tx_hash: Sha256d::from_slice(&e[..32]).unwrap(), vout: e[32] as u32 };
        eq(c, "outpoint", &p, &q, false)?;
        eqh(c, "byte string", &ba(&d), &ba(&e), false)
    });
}

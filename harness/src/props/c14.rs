//! C14 Byte strings: exact operations, truthful provenance after any history of operations.
use super::util::*;
use crate::framework::*;
use crate::oracle::{hash, hex, script};
use crate::prng::{fnv, mix, Gen};
use crate::{ensure, same};
use bitcoin_cash::*;
use std::borrow::Cow;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::sync::Arc;

type Signed = HashSet<(u8, Vec<u8>, Vec<u8>)>;

pub fn digest_of(f: Function, m: &[u8]) -> Option<Vec<u8>> {
    Some(match f {
        Function::Sha1 => hash::sha1(m).to_vec(),
        Function::Ripemd160 => hash::ripemd160(m).to_vec(),
        Function::Sha256 => hash::sha256(m).to_vec(),
        Function::Hash256 => hash::sha256d(m).to_vec(),
        Function::Hash160 => hash::hash160(m).to_vec(),
        _ => return None,
    })
}
/// every claim the provenance makes, at every level
fn truth(b: &ByteArray, signed: &Signed) -> R {
    match (b.function(), b.preimage()) {
        (Function::Plain, Some(parts)) => {
            let j: Vec<u8> = parts.iter().flat_map(|p| p.to_vec()).collect();
            ensure!(j == b.to_vec(), "listed parts join to {}, the bytes are {}", hex(&j), hex(b));
        }
        (f, Some(args)) => {
            ensure!(args.len() == 1, "{:?} lists {} arguments", f, args.len());
            let arg = &args[0];
            if let Some(d) = digest_of(f, arg) {
                ensure!(d == b.to_vec(), "{:?} of the listed argument {} is {}, the bytes are {}", f, hex(arg), hex(&d), hex(b));
            } else {
                ensure!(
                    signed.contains(&(f as u8, b.to_vec(), arg.to_vec())),
                    "{} is presented as {:?} of {}, which nobody computed",
                    hex(b),
                    f,
                    hex(arg)
                );
            }
        }
        (_, None) => (),
    }
    for p in b.preimage().unwrap_or(&[]) {
        truth(p, signed)?;
    }
    Ok(())
}
/// fingerprint of the whole tree
pub fn print(b: &ByteArray) -> u64 {
    let mut h = mix(fnv(b) ^ mix(b.function() as u64)) ^ b.name().map_or(7, |n| fnv(n.as_bytes()));
    match b.preimage() {
        None => h = mix(h),
        Some(p) => {
            h = mix(h ^ 0x55);
            for x in p {
                h = mix(h.rotate_left(9) ^ print(x));
            }
        }
    }
    h
}
fn weight(b: &ByteArray) -> usize {
    1 + b.preimage().unwrap_or(&[]).iter().map(weight).sum::<usize>()
}
/// the pieces a byte string says it is joined from, plain joins resolved; empty pieces are left out
fn leaves(b: &ByteArray, out: &mut Vec<ByteArray>) {
    match (b.function(), b.preimage()) {
        (Function::Plain, Some(p)) => p.iter().for_each(|x| leaves(x, out)),
        _ => {
            if b.len() > 0 {
                out.push(b.clone())
            }
        }
    }
}
fn leaf_list(b: &[&ByteArray]) -> Vec<ByteArray> {
    let mut v = vec![];
    b.iter().for_each(|x| leaves(x, &mut v));
    v
}
fn same_leaves(what: &str, got: &[ByteArray], want: &[ByteArray]) -> R {
    let show = |v: &[ByteArray]| v.iter().map(|b| format!("{:?}:{:?}({})", b.name(), b.function(), hex(b))).collect::<Vec<_>>().join(", ");
    ensure!(
        got.len() == want.len() && got.iter().zip(want).all(|(a, b)| print(a) == print(b)),
        "{}: parts are [{}], expected [{}]",
        what,
        show(got),
        show(want)
    );
    Ok(())
}
/// what a byte string contributes to the list of a plain concatenation
fn parts_of(b: &ByteArray) -> Vec<ByteArray> {
    b.preimage().map_or_else(|| vec![b.clone()], |p| p.to_vec())
}
fn joined_list(parts: &[ByteArray]) -> Vec<ByteArray> {
    if parts.iter().all(|p| p.function() == Function::Plain) {
        parts.iter().flat_map(parts_of).collect()
    } else {
        parts.to_vec()
    }
}
fn std_hash(b: &ByteArray) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    b.hash(&mut h);
    h.finish()
}
struct Item {
    b: ByteArray,
    bytes: Vec<u8>,
    print: u64,
}
struct World {
    pool: Vec<Item>,
    signed: Signed,
    log: Vec<String>,
    checks: usize,
}
impl World {
    fn check(&mut self, b: &ByteArray, bytes: &[u8]) -> R {
        self.checks += 1;
        ensure!(b.as_slice() == bytes && b.data().as_ref() == bytes, "bytes are {}, expected {}", hex(b), hex(bytes));
        same!("length", b.len(), bytes.len());
        same!("hex", b.hex(), hex(bytes));
        same!("display", b.to_string(), hex(bytes));
        let plain = ba(bytes);
        ensure!(*b == plain && plain == *b && std_hash(b) == std_hash(&plain), "equality or hashing depends on provenance");
        if !bytes.is_empty() {
            let mut o = bytes.to_vec();
            o[bytes.len() / 2] ^= 1;
            ensure!(*b != ba(&o) && *b != ba(&bytes[1..]), "equal to other bytes");
        }
        truth(b, &self.signed)
    }
    fn add(&mut self, b: ByteArray, bytes: Vec<u8>) -> R {
        self.check(&b, &bytes)?;
        if weight(&b) <= 3_000 && bytes.len() <= 4_000 {
            let print = print(&b);
            self.pool.push(Item { b, bytes, print });
        }
        Ok(())
    }
    fn pick(&self, g: &mut Gen) -> usize {
        // prefer recent values, so that histories are long
        let n = self.pool.len();
        if g.chance(1, 2) {
            n - 1 - g.below(n.min(3))
        } else {
            g.below(n)
        }
    }
    fn unchanged(&self) -> R {
        for i in &self.pool {
            ensure!(print(&i.b) == i.print && i.b.as_slice() == &i.bytes[..], "an operation changed another value");
        }
        Ok(())
    }
}
const NAMES: [&str; 6] = ["a", "", "sig", "x y", "\u{e9}\u{1f600}", "prevouts"];
fn name(g: &mut Gen) -> String {
    g.pick(&NAMES).to_string()
}
fn arc(g: &mut Gen) -> Arc<Cow<'static, str>> {
    Arc::new(Cow::Owned(name(g)))
}
fn fresh(g: &mut Gen, w: &mut World) -> R {
    let n = match g.below(6) {
        0 => 0,
        1 => *g.pick(&[20usize, 32]),
        2 => g.edge_len(false).min(300),
        _ => g.below(12),
    };
    let d = g.bytes(n);
    let nm = name(g);
    w.log.push(format!("new({})", hex(&d)));
    let (b, named) = match g.below(7) {
        0 => (ByteArray::new(nm.clone(), d.clone()), true),
        1 => (ByteArray::new_unnamed(d.clone()), false),
        2 => (ByteArray::from_slice(nm.clone(), &d), true),
        3 => (ByteArray::from_slice_unnamed(&d), false),
        4 => (d.clone().into(), false),
        5 => (ByteArray::from_preimage(d.clone().into(), Some(Arc::new(nm.clone().into())), Function::Plain, None), true),
        _ => ((&d[..]).into(), false),
    };
    same!("name", b.name(), if named { Some(nm.as_str()) } else { None });
    same!("function", b.function(), Function::Plain);
    ensure!(b.preimage().is_none(), "fresh bytes have a preimage");
    w.add(b, d)
}
fn digest<H: Hashed>(w: &mut World, i: usize) -> R {
    let m = w.pool[i].b.clone();
    let want = digest_of(H::function(), &m).ok_or("not a hash function")?;
    w.log.push(format!("{:?}(#{})", H::function(), i));
    let h = H::digest(m.clone());
    same!("digest", hex(h.as_slice()), hex(&want));
    let b = if w.checks % 2 == 0 { h.as_byte_array().clone() } else { h.into_byte_array() };
    same!("function", b.function(), H::function());
    match b.preimage() {
        Some([x]) => ensure!(print(x) == print(&m), "the listed message is not the hashed one"),
        p => return Err(format!("a hash lists {:?}", p)),
    }
    w.add(b, want)
}
fn num2bin(g: &mut Gen, w: &mut World) -> R {
    let v = g.edge_i32();
    let n = match g.below(8) {
        0 => g.edge_i32().min(300),
        1 => 0,
        2 => -(g.below(5) as i32),
        3 => 5 + g.below(300) as i32,
        _ => 1 + g.below(5) as i32,
    };
    let v = if g.chance(1, 3) {
        // the edge of the width
        let b = 1i64 << (8 * n.max(1).min(4) - 1);
        let e = b - 1 + g.below(3) as i64 - 1;
        (if g.chance(1, 2) { e } else { -e }).max(-0x7fff_ffff).min(0x7fff_ffff) as i32
    } else {
        v
    };
    w.log.push(format!("from_int({}, {})", v, n));
    let (i, k) = (Integer::new(v).map_err(|e| format!("{:?}", e))?, Integer::new(n).map_err(|e| format!("{:?}", e))?);
    let got = ByteArray::from_int(i, k);
    let fits = n > 0 && (n >= 5 || (v as i64).abs() < 1 << (8 * n - 1));
    match (fits, got) {
        (false, Err(_)) => Ok(()),
        (false, Ok(b)) => Err(format!("{} in {} bytes gives {}", v, n, hex(&b))),
        (true, Err(e)) => Err(format!("{} in {} bytes is an error: {}", v, n, e)),
        (true, Ok(b)) => {
            let mut want = (v as i64).abs().to_le_bytes().to_vec();
            want.resize(n.max(8) as usize, 0);
            want.truncate(n as usize);
            if v < 0 {
                want[n as usize - 1] |= 0x80;
            }
            same!("number as bytes", hex(&b), hex(&want));
            same!("function", b.function(), Function::Num2Bin);
            w.add(b, want)
        }
    }
}
fn split(g: &mut Gen, w: &mut World, i: usize) -> R {
    let (b, bytes) = (w.pool[i].b.clone(), w.pool[i].bytes.clone());
    let n = bytes.len();
    let at = match g.below(12) {
        0 => n,
        1 => 0,
        2 => n + 1 + g.below(3),
        3 if g.chance(1, 4) => usize::MAX - g.below(2),
        4..=6 => {
            // at, or next to, the boundary of a part
            let parts = b.preimage().unwrap_or(&[]);
            let k = g.below(parts.len() + 1);
            let p: usize = parts[..k].iter().map(|x| x.len()).sum();
            (p + g.below(3)).saturating_sub(1)
        }
        _ => g.below(n + 1),
    };
    w.log.push(format!("split(#{}, {})", i, at));
    let joined = b.function() == Function::Plain && b.preimage().is_some();
    let is_hash = |x: &ByteArray| x.preimage().is_some() && [Function::Sha1, Function::Ripemd160, Function::Sha256, Function::Hash256, Function::Hash160].contains(&x.function());
    let was_hash = is_hash(&b);
    let old = leaf_list(&[&b]);
    match b.split(at) {
        Err(_) if at > n => Ok(()),
        Err(e) => Err(format!("split at {} of {} bytes is an error: {}", at, n, e)),
        Ok(_) if at > n => Err(format!("split at {} of {} bytes succeeds", at, n)),
        Ok((l, r)) => {
            if joined {
                // parts wholly on one side stay themselves; the cut one becomes two plain pieces of it
                let (mut wl, mut wr, mut pos) = (vec![], vec![], 0);
                let mut cut_hash = false;
                for x in &old {
                    let e = pos + x.len();
                    cut_hash |= pos < at && at < e && is_hash(x);
                    if e <= at {
                        wl.push(x.clone());
                    } else if pos >= at {
                        wr.push(x.clone());
                    }
                    pos = e;
                }
                let (mut gl, mut gr) = (leaf_list(&[&l]), leaf_list(&[&r]));
                if wl.len() + wr.len() < old.len() {
                    if let Some(x) = gl.pop() {
                        ensure!(x.preimage().is_none(), "half of a part has a preimage");
                        if cut_hash {
                            same!("mark of a piece of a hash", x.function(), Function::UnexpectedSplit);
                        }
                    }
                    if !gr.is_empty() {
                        let x = gr.remove(0);
                        ensure!(x.preimage().is_none(), "half of a part has a preimage");
                        if cut_hash {
                            same!("mark of a piece of a hash", x.function(), Function::UnexpectedSplit);
                        }
                    }
                }
                same_leaves("left part", &gl, &wl)?;
                same_leaves("right part", &gr, &wr)?;
            } else {
                for h in [&l, &r].iter() {
                    ensure!(h.preimage().is_none(), "half of {:?} bytes lists a preimage", old.get(0).map(|x| x.function()));
                    if was_hash && at > 0 && at < n {
                        same!("mark of a piece of a hash", h.function(), Function::UnexpectedSplit);
                    }
                }
            }
            w.add(l, bytes[..at].to_vec())?;
            w.add(r, bytes[at..].to_vec())
        }
    }
}
fn step(g: &mut Gen, w: &mut World) -> R {
    let (i, j) = (w.pick(g), w.pick(g));
    let (a, b) = (w.pool[i].b.clone(), w.pool[j].b.clone());
    let joined: Vec<u8> = [&w.pool[i].bytes[..], &w.pool[j].bytes[..]].concat();
    match g.below(20) {
        0 => fresh(g, w),
        1..=5 => {
            w.log.push(format!("concat(#{}, #{})", i, j));
            let want = leaf_list(&[&a, &b]);
            let listed = if a.function() == Function::Plain && b.function() == Function::Plain { [parts_of(&a), parts_of(&b)].concat() } else { vec![a.clone(), b.clone()] };
            let (c, n) = match g.below(4) {
                0 => {
                    let n = arc(g);
                    (a.concat_named(n.clone(), b), Some(n))
                }
                1 => {
                    let n = if g.chance(1, 2) { Some(arc(g)) } else { None };
                    (a.concat_named_option(b, n.clone()), n)
                }
                _ => (a.concat(b), None),
            };
            same!("name", c.name(), n.as_ref().map(|n| &***n));
            same!("function", c.function(), Function::Plain);
            same_leaves("concatenation", &leaf_list(&[&c]), &want)?;
            same_leaves("list of a concatenation", c.preimage().unwrap_or(&[]), &listed)?;
            w.add(c, joined)
        }
        6 | 7 => {
            let k = g.below(5);
            let idx: Vec<usize> = (0..k).map(|_| w.pick(g)).collect();
            w.log.push(format!("from_parts({:?})", idx));
            let parts: Vec<ByteArray> = idx.iter().map(|i| w.pool[*i].b.clone()).collect();
            let want: Vec<u8> = idx.iter().flat_map(|i| w.pool[*i].bytes.clone()).collect();
            let c = ByteArray::from_parts(parts.clone());
            same_leaves("joined parts", &leaf_list(&[&c]), &leaf_list(&parts.iter().collect::<Vec<_>>()))?;
            if parts.len() > 1 {
                same_leaves("list of joined parts", c.preimage().unwrap_or(&[]), &joined_list(&parts))?;
            }
            w.add(c, want)
        }
        8..=11 => split(g, w, i),
        12 => digest::<Sha256>(w, i),
        13 => match g.below(4) {
            0 => digest::<Sha1>(w, i),
            1 => digest::<Ripemd160>(w, i),
            2 => digest::<Sha256d>(w, i),
            _ => digest::<Hash160>(w, i),
        },
        14 => num2bin(g, w),
        15 | 16 => {
            let n = name(g);
            w.log.push(format!("name(#{})", i));
            let c = if g.chance(3, 4) {
                let c = a.clone().named(n.clone());
                same!("name", c.name(), Some(n.as_str()));
                c
            } else {
                let c = a.clone().named_option(None);
                same!("name", c.name(), None);
                c
            };
            ensure!(c == a && std_hash(&c) == std_hash(&a), "naming changed equality or hashing");
            // undoing the name must give the identical tree
            same!("tree under another name", print(&c.clone().named_option(a.name_arc().cloned())), print(&a));
            let bytes = w.pool[i].bytes.clone();
            w.add(c, bytes)
        }
        17 => {
            let f = *g.pick(&[Function::EcdsaSign, Function::SchnorrSign, Function::ToDataSig, Function::Reverse]);
            let mut d = a.to_vec();
            if f == Function::Reverse {
                d.reverse();
            } else {
                let n = g.range(60, 73);
                d = g.bytes(n);
            }
            w.log.push(format!("{:?}(#{}) = {}", f, i, hex(&d)));
            w.signed.insert((f as u8, d.clone(), a.to_vec()));
            let c = a.clone().apply_function(d.clone(), f);
            same!("function", c.function(), f);
            match c.preimage() {
                Some([x]) => ensure!(print(x) == print(&a), "the listed argument is not the given one"),
                p => return Err(format!("arguments {:?}", p)),
            }
            w.add(c, d)
        }
        18 => {
            // fixed-size views keep bytes and provenance, wrong sizes are errors
            let bytes = w.pool[i].bytes.clone();
            w.log.push(format!("fixed(#{})", i));
            let r = FixedByteArrayLE::<[u8; 20]>::from_byte_array(a.clone());
            let s = FixedByteArrayBE::<[u8; 20]>::from_slice_unnamed(&bytes);
            let n = name(g);
            let t = FixedByteArrayLE::<[u8; 20]>::from_slice(n.clone(), &bytes);
            same!("fixed array accepted with a name", t.is_ok(), bytes.len() == 20);
            if let Ok(t) = t {
                same!("name of a fixed array", t.as_byte_array().name(), Some(n.as_str()));
                same!("bytes of a named fixed array", hex(t.as_byte_array()), hex(&bytes));
            }
            same!("fixed array accepted", (r.is_ok(), s.is_ok()), (bytes.len() == 20, bytes.len() == 20));
            if let Ok(f) = r {
                same!("tree of a fixed array", print(f.as_byte_array()), print(&a));
                let n = name(g);
                let f = f.named(n.clone());
                same!("name", f.as_byte_array().name(), Some(n.as_str()));
                let s = s.unwrap();
                ensure!(f.as_ref() == s.as_ref() && f[..] == bytes[..], "fixed array changed its bytes");
                w.add(f.into_byte_array(), bytes)?;
                return w.add(s.into_byte_array(), a.to_vec());
            }
            Ok(())
        }
        _ => {
            // through a script: pushes keep bytes, and provenance stays truthful both ways
            let v = [i, j];
            w.log.push(format!("script(#{}, #{})", i, j));
            let s = Script::from_ops(v.iter().map(|k| Op::from_array(w.pool[*k].b.clone())));
            let want: Vec<u8> = v.iter().flat_map(|k| script::push_minimal(&w.pool[*k].bytes)).collect();
            let ser = s.ser_ops();
            same!("script", hex(&ser), hex(&want));
            let back = Script::deser_ops(ser.clone()).map_err(|e| e.to_string())?;
            for o in back.ops().iter() {
                if let Op::PushByteArray { array, .. } = &o.op {
                    truth(array, &w.signed)?;
                }
            }
            w.add(ser, want)
        }
    }
}
fn history(g: &mut Gen, c: &mut Case) -> R {
    let mut w = World { pool: vec![], signed: HashSet::new(), log: vec![], checks: 0 };
    let starts = g.range(1, 3);
    for _ in 0..starts {
        fresh(g, &mut w)?;
    }
    let n = if g.chance(1, 3) { 40 } else { g.range(2, 16) };
    for _ in 0..n {
        let r = step(g, &mut w);
        c.input(w.log.join(" ; "));
        r?;
        w.unchanged()?;
    }
    c.saw(w.checks);
    for op in ["concat", "split", "name", "from_parts", "script", "fixed", "from_int", "Sha256", "Hash256", "Hash160", "Sha1", "Ripemd160", "EcdsaSign"].iter() {
        c.class_if(w.log.iter().any(|l| l.starts_with(op)), op);
    }
    let deep = w.pool.iter().map(|i| depth(&i.b)).max().unwrap_or(0);
    c.class(format!("depth {}", deep.min(12)));
    Ok(())
}
fn depth(b: &ByteArray) -> usize {
    1 + b.preimage().unwrap_or(&[]).iter().map(depth).max().unwrap_or(0)
}
pub fn run(ctx: &mut Ctx) {
    ctx.rule("random histories of byte-string operations; after every step the bytes are compared with a plain model, every provenance claim at every level is recomputed, and all earlier values must be unchanged");
    ctx.phase("histories", 10_000, 400_000, |g, c, _| history(g, c));
    ctx.phase("number to bytes", 40_000, 2_000_000, |g, c, _| {
        let mut w = World { pool: vec![], signed: HashSet::new(), log: vec![], checks: 0 };
        let r = num2bin(g, &mut w);
        c.input(w.log.join(""));
        c.saw(1);
        r
    });
    // every width a script could ask for, at its edges
    ctx.exhaustive("all widths", 1100, |g, c, i| {
        let n = i as i32 - 20;
        c.input(format!("width {}", n));
        let lim = 1i64 << (8 * n.max(1).min(4) - 1);
        for v in [0, 1, -1, 127, -127, 128, -128, 255, 256, -256, lim - 2, lim - 1, lim, lim + 1, 1 - lim, -lim, -lim - 1, 0x7fff_ffff, -0x7fff_ffff, g.edge_i32() as i64].iter() {
            let v = *v.max(&-0x7fff_ffff).min(&0x7fff_ffff);
            let fits = n > 0 && v.abs() < lim;
            let got = ByteArray::from_int(Integer::new(v as i32).map_err(|e| format!("{:?}", e))?, Integer::new(n).map_err(|e| format!("{:?}", e))?);
            let mut want = v.abs().to_le_bytes().to_vec();
            want.resize(n.max(8) as usize, 0);
            want.truncate(n.max(1) as usize);
            if v < 0 {
                *want.last_mut().unwrap() |= 0x80;
            }
            same!(format!("{} in {} bytes", v, n), got.ok().map(|b| hex(&b)), if fits { Some(hex(&want)) } else { None });
            c.saw(1);
        }
        Ok(())
    });
    // sizes and numbers of parts beyond one and two bytes
    ctx.phase("long byte strings", 60, 1_500, |g, c, i| {
        let n = *g.pick(&[255usize, 256, 257, 300, 511, 521, 1000, 4095, 4097, 10_000, 65_535, 65_537, 100_000]);
        let bytes = g.bytes(n);
        c.input(format!("{} random bytes (case {})", n, i));
        let b = if g.chance(1, 2) { ByteArray::new(name(g), bytes.clone()) } else { ba(&bytes) };
        for _ in 0..12 {
            let mut o = bytes.clone();
            let k = if g.chance(1, 4) { n - 1 - g.below(3) } else { g.below(n) };
            o[k] ^= 1 << g.below(8);
            ensure!(b != ba(&o), "equal to a byte string that differs in byte {}", k);
            let at = *g.pick(&[k, 0, n, n - 1, n / 2]);
            let (l, r) = b.clone().split(at).map_err(|e| e.to_string())?;
            ensure!(l.as_slice() == &bytes[..at] && r.as_slice() == &bytes[at..], "split at {}", at);
            let j = l.concat(r);
            ensure!(j.as_slice() == &bytes[..] && j == b, "split at {} and joined again", at);
            truth(&j, &HashSet::new())?;
            c.saw(4);
        }
        ensure!(b != ba(&bytes[..n - 1]) && b != ba(&[&bytes[..], &[0]].concat()), "equal to a byte string of another length");
        same!("hex", b.hex(), hex(&bytes));
        Ok(())
    });
    ctx.phase("many parts", 60, 1_000, |g, c, i| {
        let n = *g.pick(&[17usize, 33, 64, 65, 100, 255, 256, 257, 300, 600]);
        let all_plain = g.chance(1, 2);
        c.input(format!("{} parts, plain only {} (case {})", n, all_plain, i));
        let parts: Vec<ByteArray> = (0..n)
            .map(|k| {
                let l = g.below(4);
                let b = ByteArray::new(format!("p{}", k), g.bytes(l));
                if !all_plain && g.chance(1, 5) {
                    Sha256::digest(b).into_byte_array()
                } else {
                    b
                }
            })
            .collect();
        let bytes: Vec<u8> = parts.iter().flat_map(|p| p.to_vec()).collect();
        let (mut b, mut listed) = (parts[0].clone(), vec![parts[0].clone()]);
        for (k, p) in parts[1..].iter().enumerate() {
            let nested = b.function() != Function::Plain || p.function() != Function::Plain;
            let before = b.clone();
            b = b.concat(p.clone());
            if nested {
                listed = vec![before, p.clone()];
            } else {
                listed.push(p.clone());
            }
            if k % 16 == 0 || n < 70 {
                same_leaves("list of a concatenation", b.preimage().unwrap_or(&[]), &listed)?;
            }
            c.saw(1);
        }
        same_leaves("list of a concatenation", b.preimage().unwrap_or(&[]), &listed)?;
        let f = ByteArray::from_parts(parts.clone());
        for x in [&b, &f].iter() {
            ensure!(x.as_slice() == &bytes[..], "bytes of {} joined parts", n);
            same_leaves("pieces", &leaf_list(&[x]), &leaf_list(&parts.iter().collect::<Vec<_>>()))?;
            truth(x, &HashSet::new())?;
        }
        same_leaves("list of joined parts", f.preimage().unwrap_or(&[]), &joined_list(&parts))?;
        let both = b.clone().concat(f.clone());
        same_leaves("list of both", both.preimage().unwrap_or(&[]), &joined_list(&[b.clone(), f.clone()]))?;
        for _ in 0..6 {
            let at = g.below(bytes.len() + 1);
            for x in [&b, &f].iter() {
                let (l, r) = (*x).clone().split(at).map_err(|e| e.to_string())?;
                ensure!(l.as_slice() == &bytes[..at] && r.as_slice() == &bytes[at..], "split at {}", at);
                truth(&l, &HashSet::new())?;
                truth(&r, &HashSet::new())?;
                // whole parts stay themselves on their side
                let (mut pos, mut want) = (0, vec![vec![], vec![]]);
                for p in leaf_list(&parts.iter().collect::<Vec<_>>()) {
                    let e = pos + p.len();
                    if e <= at {
                        want[0].push(p);
                    } else if pos >= at {
                        want[1].push(p);
                    }
                    pos = e;
                }
                let (gl, gr) = (leaf_list(&[&l]), leaf_list(&[&r]));
                same_leaves("left part", &gl[..want[0].len().min(gl.len())], &want[0])?;
                same_leaves("right part", &gr[gr.len() - want[1].len().min(gr.len())..], &want[1])?;
            }
        }
        Ok(())
    });
    // every split position of a join of all kinds of parts
    ctx.phase("every split position", 60, 2_000, |g, c, _| {
        let mut w = World { pool: vec![], signed: HashSet::new(), log: vec![], checks: 0 };
        fresh(g, &mut w)?;
        while w.pool.iter().all(|i| i.bytes.len() < 80) {
            step(g, &mut w)?;
        }
        let k = w.pool.iter().position(|i| i.bytes.len() >= 80).unwrap();
        let (b, bytes) = (w.pool[k].b.clone(), w.pool[k].bytes.clone());
        c.input(w.log.join(" ; "));
        for at in 0..=bytes.len().min(400) {
            let (l, r) = b.clone().split(at).map_err(|e| e.to_string())?;
            w.check(&l, &bytes[..at])?;
            w.check(&r, &bytes[at..])?;
            let j = l.concat(r);
            w.check(&j, &bytes)?;
        }
        c.saw(bytes.len());
        Ok(())
    });
    ctx.exhaustive("huge widths", 3, |_, c, i| {
        let n = [1 << 16, (1 << 20) + 1, 1 << 24][i as usize];
        c.input(format!("from_int(-5, {})", n));
        c.saw(1);
        let b = ByteArray::from_int(Integer::new(-5).unwrap(), Integer::new(n).unwrap()).map_err(|e| e.to_string())?;
        ensure!(b.len() == n as usize && b[0] == 5 && b[n as usize - 1] == 0x80 && b[1..n as usize - 1].iter().all(|x| *x == 0), "wrong bytes");
        Ok(())
    });
}

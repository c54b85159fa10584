//! C02 decoding untrusted bytes: never panics, never over-reads, never allocates out of proportion
use super::util::*;
use crate::alloc::measured;
use crate::framework::*;
use crate::oracle::script;
use crate::oracle::tx::*;
use crate::oracle::{compact, hex};
use crate::prng::Gen;
use crate::{ensure, same};
use bitcoin_cash::*;

pub struct Ty {
    pub name: &'static str,
    /// Ok((re-serialised, rest)) or the error text
    pub rest: fn(ByteArray) -> Result<(Vec<u8>, Vec<u8>), String>,
    pub whole: fn(ByteArray) -> Result<Vec<u8>, String>,
    pub gen: fn(&mut Gen) -> Vec<u8>,
    /// re-serialising an accepted encoding must give the bytes consumed (false where several encodings denote one value)
    pub canonical: bool,
}
macro_rules! ty {
    ($t:ty, $name:expr, $canon:expr, $gen:expr) => {
        Ty {
            name: $name,
            rest: |d| <$t as BitcoinCode>::deser_rest(d).map(|(v, r)| (v.ser().to_vec(), r.to_vec())).map_err(|e| e.to_string()),
            whole: |d| <$t as BitcoinCode>::deser(d).map(|v| v.ser().to_vec()).map_err(|e| e.to_string()),
            gen: $gen,
            canonical: $canon,
        }
    };
}
fn g_script(g: &mut Gen) -> Vec<u8> {
    let s = script::encode(&script::gen_script(g, 8, false, false));
    [compact(s.len() as u64), s].concat()
}
fn g_in(g: &mut Gen) -> Vec<u8> {
    OIn { txid: g.arr32(), vout: g.edge_u32(), script: script::encode(&script::gen_script(g, 6, false, false)), seq: g.edge_u32() }.ser()
}
fn g_out(g: &mut Gen) -> Vec<u8> {
    OOut { value: g.edge_u64(), script: script::encode(&script::gen_script(g, 6, false, false)) }.ser()
}
fn g_ba(g: &mut Gen) -> Vec<u8> {
    let n = g.edge_len(false);
    [compact(n as u64), g.bytes(n)].concat()
}
fn g_list(g: &mut Gen, f: fn(&mut Gen) -> Vec<u8>) -> Vec<u8> {
    let n = g.below(6);
    let mut v = compact(n as u64);
    for _ in 0..n {
        v.extend(f(g));
    }
    v
}
fn g_tx(g: &mut Gen) -> Vec<u8> {
    gen_otx(g, false, false).ser()
}
pub fn types() -> Vec<Ty> {
    vec![
        ty!(UnhashedTx, "UnhashedTx", true, g_tx),
        ty!(Tx, "Tx", true, |g| {
            let t = g_tx(g);
            [compact(t.len() as u64), t].concat()
        }),
        ty!(TxOutpoint, "TxOutpoint", true, |g| g.bytes(36)),
        ty!(TxInput, "TxInput", true, g_in),
        ty!(TxOutput, "TxOutput", true, g_out),
        ty!(Script, "Script", true, g_script),
        ty!(ByteArray, "ByteArray", true, g_ba),
        ty!(Sha256d, "Sha256d", true, |g| g.bytes(32)),
        ty!(Sha256, "Sha256", true, |g| g.bytes(32)),
        ty!(Hash160, "Hash160", true, |g| g.bytes(20)),
        ty!(Sha1, "Sha1", true, |g| g.bytes(20)),
        ty!(Ripemd160, "Ripemd160", true, |g| g.bytes(20)),
        ty!(u8, "u8", true, |g| g.bytes(1)),
        ty!(i8, "i8", true, |g| g.bytes(1)),
        ty!(u16, "u16", true, |g| g.bytes(2)),
        ty!(i16, "i16", true, |g| g.bytes(2)),
        ty!(u32, "u32", true, |g| g.bytes(4)),
        ty!(i32, "i32", true, |g| g.bytes(4)),
        ty!(u64, "u64", true, |g| g.bytes(8)),
        ty!(i64, "i64", true, |g| g.bytes(8)),
        ty!(u128, "u128", true, |g| g.bytes(16)),
        ty!(i128, "i128", true, |g| g.bytes(16)),
        ty!(bool, "bool", false, |g| vec![g.below(2) as u8]),
        ty!(Vec<u8>, "Vec<u8>", true, g_ba),
        ty!(Vec<u64>, "Vec<u64>", true, |g| g_list(g, |g| g.bytes(8))),
        ty!(Vec<ByteArray>, "Vec<ByteArray>", true, |g| g_list(g, g_ba)),
        ty!(Vec<Vec<u16>>, "Vec<Vec<u16>>", true, |g| g_list(g, |g| g_list(g, |g| g.bytes(2)))),
        ty!(Vec<Script>, "Vec<Script>", true, |g| g_list(g, g_script)),
        ty!(Vec<TxOutput>, "Vec<TxOutput>", true, |g| g_list(g, g_out)),
        ty!(Vec<TxInput>, "Vec<TxInput>", true, |g| g_list(g, g_in)),
        ty!(Vec<UnhashedTx>, "Vec<UnhashedTx>", true, |g| {
            let n = g.below(3);
            let mut v = compact(n as u64);
            for _ in 0..n {
                v.extend(g_tx(g));
            }
            v
        }),
        ty!(TxPreimage, "TxPreimage", true, |g| [g.bytes(4 + 32 + 32 + 36), g_script(g), g.bytes(8 + 4 + 32 + 4 + 4)].concat()),
    ]
}
/// hostile variants of a valid encoding
fn mutate(g: &mut Gen, v: &mut Vec<u8>) -> &'static str {
    let pos = if v.is_empty() { 0 } else { g.below(v.len()) };
    match g.below(9) {
        0 => {
            v.truncate(pos);
            "truncated"
        }
        1 => {
            for _ in 0..1 + g.below(4) {
                if !v.is_empty() {
                    let p = g.below(v.len());
                    v[p] ^= 1 << g.below(8);
                }
            }
            "bits flipped"
        }
        2 => {
            // a huge length or count somewhere
            let big: &[u8] = match g.below(8) {
                0 => &[0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff],
                1 => &[0xfe, 0xff, 0xff, 0xff, 0xff],
                2 => &[0xff, 0, 0, 0, 0, 0, 0, 0, 0x80],
                3 => &[0xfd, 0xff, 0xff],
                4 => &[0xff, 0, 0, 0, 0, 1, 0, 0, 0],
                5 => &[0x4e, 0xff, 0xff, 0xff, 0xff],
                6 => &[0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f],
                _ => &[0x4e, 0, 0, 0, 0x80],
            };
            let p = *g.pick(&[0, 4, 40, 41, 8, pos]);
            let p = p.min(v.len());
            let e = (p + if g.chance(1, 2) { 1 } else { big.len() }).min(v.len());
            v.splice(p..e, big.iter().cloned());
            "huge length"
        }
        3 => {
            let n = 1 + g.below(6);
            let b = g.bytes(n);
            v.splice(pos..pos, b);
            "bytes inserted"
        }
        4 => {
            let e = (pos + 1 + g.below(5)).min(v.len());
            v.drain(pos..e);
            "bytes removed"
        }
        5 => {
            if !v.is_empty() {
                v[pos] = *g.pick(&[0, 1, 0x4b, 0x4c, 0x4d, 0x4e, 0x4f, 0x50, 0xfc, 0xfd, 0xfe, 0xff, 0x80, 0x7f]);
            }
            "byte replaced"
        }
        6 => {
            let n = g.below(80);
            *v = g.bytes(n);
            "random"
        }
        7 => {
            let n = g.below(60);
            *v = (0..n).map(|_| *g.pick(&[0u8, 1, 2, 0x4c, 0x4d, 0x4e, 0xfd, 0xfe, 0xff])).collect();
            "random markers"
        }
        _ => {
            let tail = v[pos..].to_vec();
            v.extend(tail);
            "duplicated tail"
        }
    }
}
/// a non-flat byte string: same bytes, arbitrary provenance
fn structured(g: &mut Gen, d: &[u8], depth: usize) -> ByteArray {
    if depth == 0 || d.len() < 2 || g.chance(1, 4) {
        let b = ba(d);
        return match g.below(4) {
            0 => b.named("part"),
            1 => ba(b"message").apply_function(d.to_vec(), *g.pick(&[Function::Sha256, Function::Num2Bin, Function::EcdsaSign, Function::Reverse, Function::Plain])),
            _ => b,
        };
    }
    let n = 2 + g.below(3);
    let mut cuts: Vec<usize> = (0..n - 1).map(|_| g.below(d.len() + 1)).collect();
    cuts.push(0);
    cuts.push(d.len());
    cuts.sort();
    let parts: Vec<ByteArray> = cuts.windows(2).map(|w| structured(g, &d[w[0]..w[1]], depth - 1)).collect();
    ByteArray::from_parts(parts)
}
pub fn limit(n: usize) -> usize {
    (1 << 20) + 4096 * n
}
fn check(c: &mut Case, t: &Ty, flat: &[u8], d: ByteArray) -> Result<bool, String> {
    let (d1, d2) = (d.clone(), d);
    let (r, peak, largest) = measured(|| (t.rest)(d1));
    ensure!(peak <= limit(flat.len()), "{}: decoding {} bytes took {} bytes of memory (largest single request {})", t.name, flat.len(), peak, largest);
    let (w, peak, largest) = measured(|| (t.whole)(d2));
    ensure!(peak <= limit(flat.len()), "{}: decoding {} bytes took {} bytes of memory (largest single request {})", t.name, flat.len(), peak, largest);
    c.saw(2);
    match r {
        Ok((ser, rest)) => {
            ensure!(rest.len() <= flat.len() && flat.ends_with(&rest), "{}: rest is not the unread end of the input: {}", t.name, hex(&rest));
            let used = &flat[..flat.len() - rest.len()];
            ensure!(!used.is_empty(), "{}: accepted without reading anything", t.name);
            ensure!(w.is_ok() == rest.is_empty(), "{}: whole-input decoder {} although the streaming decoder left {} bytes", t.name, if w.is_ok() { "accepts" } else { "rejects" }, rest.len());
            if let Ok(w) = w {
                same!(format!("{}: value of the whole-input decoder", t.name), hex(&w), hex(&ser));
            }
            let _ = t.canonical;
            Ok(true)
        }
        Err(_) => {
            ensure!(w.is_err(), "{}: whole-input decoder accepts what the streaming one rejects", t.name);
            Ok(false)
        }
    }
}
/// the bytes as a sequence of whole outputs, decoded independently, and written again as the library keeps them (lengths and pushes in their usual form)
fn outputs_all(v: &[u8]) -> Option<Vec<u8>> {
    let mut at = v;
    let mut out = vec![];
    while !at.is_empty() {
        // an output is 8 bytes of value and the script with its length
        let fake = [&[1u8, 0, 0, 0, 0, 1][..], at, &[0u8; 4][..]].concat();
        let (mut t, used) = OTx::parse(&fake)?;
        let n = used.checked_sub(10)?;
        if t.outs.len() != 1 || n > at.len() {
            return None;
        }
        t.outs[0].script = script::normalise(&script::tokenize(&t.outs[0].script)?);
        out.extend(t.outs[0].ser());
        at = &at[n..];
    }
    Some(out)
}
pub fn run(ctx: &mut Ctx) {
    ctx.rule("arbitrary, mutated, truncated and extended encodings of every wire type, flat and with nested provenance; live memory measured by a counting allocator; non-trivial = at least one byte of input");
    let tys = types();
    let n = tys.len() as u64;
    ctx.phase("hostile bytes", 60_000, 4_000_000, |g, c, i| {
        // transactions, scripts and lists get most of the attention
        let t = if i % 2 == 0 { &tys[(i / 2 % n) as usize] } else { &tys[*g.pick(&[0usize, 0, 1, 3, 4, 5, 5, 23, 25, 26, 27, 28, 29, 30, 31])] };
        let mut v = (t.gen)(g);
        let mut kind = "valid";
        if !g.chance(1, 20) {
            for _ in 0..1 + g.below(3) {
                kind = mutate(g, &mut v);
            }
        }
        let st = g.chance(1, 5);
        c.input(format!("{} {} {}", t.name, if st { "structured" } else { "flat" }, hex(&v)));
        if v.is_empty() {
            c.trivial();
        }
        let d = if st { structured(g, &v, 3) } else { ba(&v) };
        same!("input bytes", hex(d.as_slice()), hex(&v));
        let ok = check(c, t, &v, d)?;
        c.class(format!("{} {}", kind, if ok { "accepted" } else { "rejected" }));
        c.class(format!("type {}", t.name));
        if t.name == "UnhashedTx" {
            // acceptance agrees with the independent parser
            let o = OTx::parse(&v).filter(|(t, _)| t.ins.iter().map(|i| &i.script).chain(t.outs.iter().map(|o| &o.script)).all(|s| script::tokenize(s).is_some()));
            same!("transaction accepted", ok, o.is_some());
            if let Some((_, used)) = o {
                let r = UnhashedTx::deser_rest(ba(&v)).map_err(|e| e.to_string())?;
                same!("bytes left unread", r.1.len(), v.len() - used);
            }
        }
        Ok(())
    });
    ctx.phase("strict prefixes and trailing bytes", 5_000, 200_000, |g, c, i| {
        let t = &tys[(i % n) as usize];
        let v = (t.gen)(g);
        c.input(format!("{} {}", t.name, clip(&hex(&v), 20_000)));
        c.class(format!("prefixes of {}", t.name));
        let (ser, rest) = (t.rest)(ba(&v)).map_err(|e| format!("{}: valid encoding rejected: {}", t.name, e))?;
        ensure!(rest.is_empty(), "{}: {} bytes of a valid encoding left unread", t.name, rest.len());
        same!(format!("{} re-serialised", t.name), hex(&ser), hex(&v));
        let all = v.len() <= 260;
        let tries = if all { v.len() } else { 120 };
        for k in 0..tries {
            let at = if all { k } else { g.below(v.len()) };
            ensure!((t.rest)(ba(&v[..at])).is_err(), "{}: streaming decoder accepts the first {} of {} bytes", t.name, at, v.len());
            ensure!((t.whole)(ba(&v[..at])).is_err(), "{}: whole-input decoder accepts the first {} of {} bytes", t.name, at, v.len());
        }
        for k in 0..4 {
            let tail = match k {
                0 => vec![0],
                1 => g.bytes(1),
                2 => v.clone(),
                _ => {
                    let n = 1 + g.below(50);
                    g.bytes(n)
                }
            };
            let e = [&v[..], &tail[..]].concat();
            let (s, r) = (t.rest)(ba(&e)).map_err(|e| format!("{}: trailing bytes upset the streaming decoder: {}", t.name, e))?;
            same!(format!("{}: value before trailing bytes", t.name), hex(&s), hex(&v));
            same!(format!("{}: trailing bytes returned", t.name), hex(&r), hex(&tail));
            ensure!((t.whole)(ba(&e)).is_err(), "{}: whole-input decoder accepts {} trailing bytes", t.name, tail.len());
        }
        c.saw(2 * tries + 8);
        Ok(())
    });
    // every length field that can be declared, against almost no data
    ctx.phase("declared lengths", 3_000, 60_000, |g, c, i| {
        let k = match i % 6 {
            0 => (1u64 << (i / 6 % 64)).wrapping_sub(1),
            1 => 1u64 << (i / 6 % 64),
            2 => u64::MAX - i / 6,
            3 => 1000 + i,
            4 => u64::MAX / 32 + i / 6,
            _ => g.edge_u64(),
        };
        let tail = g.below(60);
        let b = g.bytes(tail);
        let d = [compact(k), b].concat();
        c.input(format!("declared length {} followed by {}", k, hex(&d[compact(k).len()..])));
        for t in &tys {
            let v = match t.name {
                "UnhashedTx" => [&[1u8, 0, 0, 0][..], &d].concat(),
                "TxInput" => [&vec![0u8; 36][..], &d].concat(),
                "TxOutput" => [&vec![0u8; 8][..], &d].concat(),
                "TxPreimage" => [&vec![0u8; 104][..], &d].concat(),
                _ => d.clone(),
            };
            check(c, t, &v, ba(&v))?;
        }
        // script pushes
        for p in &[0x4cu8, 0x4d, 0x4e] {
            let mut s = vec![*p];
            s.extend_from_slice(&k.to_le_bytes()[..(1usize << (*p - 0x4c))]);
            let n = g.below(6);
            s.extend(g.bytes(n));
            let ok = script::tokenize(&s).is_some();
            let (a, peak, _) = measured(|| deserialize_ops(&s).is_ok());
            let (b, peak2, _) = measured(|| Script::deser_ops(ba(&s)).is_ok());
            ensure!(peak.max(peak2) <= limit(s.len()), "decoding script {} took {} bytes", hex(&s), peak.max(peak2));
            same!(format!("deserialize_ops accepts {}", hex(&s)), a, ok);
            same!(format!("Script::deser_ops accepts {}", hex(&s)), b, ok);
        }
        Ok(())
    });
    ctx.phase("hostile script bytes", 40_000, 3_000_000, |g, c, _| {
        let mut s = script::encode(&script::gen_script(g, 8, true, false));
        let kind = mutate(g, &mut s);
        c.input(format!("script {}", hex(&s)));
        if s.is_empty() {
            c.trivial();
        }
        let toks = script::tokenize(&s);
        c.class(format!("script {} {}", kind, if toks.is_some() { "well formed" } else { "malformed" }));
        let (a, peak, _) = measured(|| deserialize_ops(&s).is_ok());
        let (b, peak2, _) = measured(|| Script::deser_ops(structured(g, &s, 2)).is_ok());
        ensure!(peak.max(peak2) <= limit(s.len()), "decoding {} bytes of script took {} bytes", s.len(), peak.max(peak2));
        same!("deserialize_ops accepts", a, toks.is_some());
        same!("Script::deser_ops accepts", b, toks.is_some());
        c.saw(2);
        Ok(())
    });
    ctx.phase("concatenated items", 40_000, 1_000_000, |g, c, _| {
        let n = g.below(5);
        let mut v = vec![];
        for _ in 0..n {
            v.extend(g_out(g));
        }
        if g.chance(2, 3) {
            mutate(g, &mut v);
        }
        c.input(format!("outputs {}", hex(&v)));
        let (r, peak, _) = measured(|| decode_bitcoin_code_all::<TxOutput>(ba(&v)));
        ensure!(peak <= limit(v.len()), "decoding {} bytes took {} bytes", v.len(), peak);
        if let Ok(items) = r {
            let Some(want) = outputs_all(&v) else { return Err("bytes that are no sequence of outputs accepted".into()) };
            same!("re-serialised items", hex(&items.iter().flat_map(|i| i.ser().to_vec()).collect::<Vec<u8>>()), hex(&want));
            c.class("concatenation accepted");
        } else {
            ensure!(outputs_all(&v).is_none(), "a sequence of outputs rejected");
        }
        Ok(())
    });
    ctx.phase("larger hostile inputs", 30, 600, |g, c, _| {
        let n = 2_000 + g.below(10_000);
        let v: Vec<u8> = match g.below(4) {
            0 => g.bytes(n),
            1 => vec![0x61; n],
            2 => (0..n).map(|_| *g.pick(&[0u8, 1, 2, 0x4c, 0x51, 0xfd])).collect(),
            _ => {
                let mut t = vec![1, 0, 0, 0];
                t.extend(compact(n as u64 / 41));
                for _ in 0..n / 41 {
                    t.extend(g.bytes(36));
                    t.push(0);
                    t.extend(g.bytes(4));
                }
                t
            }
        };
        c.input(format!("{} bytes starting {}", v.len(), hex(&v[..40])));
        for k in &[0usize, 1, 5, 23, 24, 25, 26, 30] {
            check(c, &tys[*k], &v, ba(&v))?;
        }
        let _ = measured(|| Script::deser_ops(ba(&v)).is_ok());
        Ok(())
    });
    // counts on both sides of every width of the count, and beyond 16 bits
    let counts = [0usize, 1, 252, 253, 254, 255, 256, 257, 511, 512, 1000, 4096, 32_767, 32_768, 65_534, 65_535, 65_536, 65_537, 65_600, 70_001];
    let lists = ["Vec<u8>", "Vec<u64>", "Vec<ByteArray>", "Vec<Vec<u16>>", "ByteArray", "Vec<TxOutput>", "Script"];
    ctx.exhaustive("long lists", (counts.len() * lists.len()) as u64, |g, c, i| {
        let t = tys.iter().find(|t| t.name == lists[i as usize % lists.len()]).unwrap();
        let n = counts[i as usize / lists.len()];
        // items of more than a byte only as far as the decoder's copies stay affordable
        let n = match t.name {
            "Vec<u8>" | "ByteArray" | "Script" => n,
            _ => n.min(4096),
        };
        let mut v = compact(n as u64);
        for k in 0..n {
            match t.name {
                "Vec<u8>" | "ByteArray" => v.push(g.u8()),
                "Script" => v.push(if k % 2 == 0 { 0x61 } else { 0x51 }),
                "Vec<u64>" => v.extend(g.bytes(8)),
                "Vec<ByteArray>" => {
                    let m = g.below(4);
                    v.push(m as u8);
                    v.extend(g.bytes(m));
                }
                "Vec<Vec<u16>>" => {
                    let m = g.below(3);
                    v.push(m as u8);
                    v.extend(g.bytes(2 * m));
                }
                _ => {
                    v.extend(g.bytes(8));
                    v.extend_from_slice(&[2, 0x51, 0x61]);
                }
            }
        }
        c.input(format!("{} of {} items", t.name, n));
        c.class(format!("count {}", n));
        let (s, r) = (t.rest)(ba(&v)).map_err(|e| format!("{} of {} items rejected: {}", t.name, n, e))?;
        ensure!(r.is_empty() && s == v, "{} of {} items: {} bytes left, {} bytes re-serialised of {}", t.name, n, r.len(), s.len(), v.len());
        let s = (t.whole)(ba(&v)).map_err(|e| format!("{} of {} items rejected: {}", t.name, n, e))?;
        ensure!(s == v, "{} of {} items: whole-input decoder re-serialises {} bytes of {}", t.name, n, s.len(), v.len());
        let extra = [&v[..], &[0x7f, 0x51][..]].concat();
        let (s, r) = (t.rest)(ba(&extra)).map_err(|e| format!("{} of {} items and 2 more bytes rejected: {}", t.name, n, e))?;
        ensure!(s == v && r == [0x7f, 0x51], "{} of {} items and 2 more bytes: {} left", t.name, n, r.len());
        ensure!((t.whole)(ba(&extra)).is_err(), "{} of {} items: trailing bytes accepted", t.name, n);
        if n > 0 {
            ensure!((t.rest)(ba(&v[..v.len() - 1])).is_err(), "{} of {} items: accepted without its last byte", t.name, n);
        }
        Ok(())
    });
}

//! C12 CashAddr: exact encoding, inverse decoding, rejection of everything else.
use crate::framework::*;
use crate::oracle::{cashaddr, hash, hex};
use crate::prng::Gen;
use crate::{ensure, same};
use bitcoin_cash::*;

pub fn gen_prefix(g: &mut Gen) -> String {
    match g.below(8) {
        0 | 1 => "bitcoincash".into(),
        2 | 3 => "simpleledger".into(),
        4 => "bchtest".into(),
        5 => (*g.pick(&["bchreg", "slp", "slptest", "slpreg", "simpleledge", "simpleledgers", "bitcoincas", "bitcoincashs", "ecash", "pref", "a"])).into(),
        _ => {
            let n = if g.chance(1, 8) { g.range(26, 300) } else { g.range(1, 25) };
            (0..n).map(|_| (b'a' + g.below(26) as u8) as char).collect()
        }
    }
}
pub fn gen_hash(g: &mut Gen) -> [u8; 20] {
    match g.below(8) {
        0 => [0; 20],
        1 => [0xff; 20],
        2 => {
            let mut h = [0; 20];
            h[g.below(20)] = g.u8();
            h
        }
        _ => g.arr20(),
    }
}
pub fn ty(p2sh: bool) -> AddressType {
    if p2sh {
        AddressType::P2SH
    } else {
        AddressType::P2PKH
    }
}
pub fn is(a: &Address, prefix: &str, p2sh: bool, h: &[u8; 20]) -> R {
    same!("hash", hex(a.hash().as_slice()), hex(h));
    same!("type", a.addr_type(), ty(p2sh));
    same!("prefix", a.prefix_str(), prefix);
    let kind = match prefix {
        "bitcoincash" => Some(Prefix::BitcoinCash),
        "simpleledger" => Some(Prefix::SimpleLedger),
        _ => None,
    };
    same!("prefix kind", a.prefix_kind(), kind);
    Ok(())
}
fn exact(g: &mut Gen, c: &mut Case) -> R {
    let (p, h, p2sh) = (gen_prefix(g), gen_hash(g), g.chance(1, 2));
    let want = cashaddr::encode(&p, p2sh, &h);
    c.input(want.clone());
    c.class(if p2sh { "P2SH" } else { "P2PKH" });
    let a = Address::from_hash(p.as_str(), ty(p2sh), Hash160::new(h));
    same!("address", a.cash_addr(), want);
    is(&a, &p, p2sh, &h)?;
    if let Some(k) = Prefix::from_prefix_str(&p) {
        let a = Address::from_hash(k, ty(p2sh), Hash160::new(h));
        same!("address by prefix kind", a.cash_addr(), want);
        is(&a, &p, p2sh, &h)?;
    }
    same!("address by owned prefix", Address::from_hash(p.clone(), ty(p2sh), Hash160::new(h)).cash_addr(), want);
    is(&Address::from_cash_addr(want.as_str()).map_err(|e| format!("not decoded: {}", e))?, &p, p2sh, &h)?;
    let back = Address::from_cash_addr(want.clone()).map_err(|e| format!("not decoded: {}", e))?;
    is(&back, &p, p2sh, &h)?;
    same!("decoded address text", back.cash_addr(), want);
    ensure!(back == a, "decoded address differs from the encoded one: {:?} / {:?}", back, a);
    is(&Address::from_cash_addr(want.to_uppercase()).map_err(|e| format!("upper case not decoded: {}", e))?, &p, p2sh, &h)?;
    let body = &want[p.len() + 1..];
    match (p == "bitcoincash", Address::from_cash_addr(body)) {
        (true, Ok(a)) => is(&a, &p, p2sh, &h)?,
        (true, Err(e)) => return Err(format!("not decoded without the prefix: {}", e)),
        (false, Ok(a)) => return Err(format!("decoded without its prefix: {:?}", a)),
        (false, Err(_)) => (),
    }
    if p == "bitcoincash" {
        is(&Address::from_cash_addr(body.to_uppercase()).map_err(|e| format!("upper case not decoded: {}", e))?, &p, p2sh, &h)?;
    }
    // changing prefix keeps type and hash
    let q = gen_prefix(g);
    let w = a.with_prefix(q.as_str());
    is(&w, &q, p2sh, &h)?;
    same!("address with another prefix", w.cash_addr(), cashaddr::encode(&q, p2sh, &h));
    for o in [a.to_owned_address(), a.clone().into_owned_address()].iter() {
        is(o, &p, p2sh, &h)?;
        same!("owned address", o.cash_addr(), want);
    }
    // a prefix altered in one place
    let mut bad = p.clone().into_bytes();
    let at = g.below(bad.len());
    bad[at] = if bad[at] == b'a' || g.chance(1, 2) { *g.pick(b"bcdefghijklmnopqrstuvwxyz") } else { bad[at] ^ 1 };
    let bad = String::from_utf8_lossy(&bad).into_owned();
    if bad != p && bad.bytes().all(|b| b.is_ascii_lowercase()) {
        ensure!(Address::from_cash_addr(format!("{}:{}", bad, body)).is_err(), "decoded under the altered prefix {}: {}", bad, body);
    }
    for bad in &[format!(":{}", body), format!("::{}", body), format!("{}::{}", p, body), format!(":{}:{}", p, body), format!("{}:{}:{}", p, p, body), format!("{}:{}:", p, body)] {
        ensure!(Address::from_cash_addr(bad.clone()).is_err(), "decoded with misplaced colons: {}", bad);
    }
    if q != p {
        let swapped = format!("{}:{}", q, body);
        ensure!(Address::from_cash_addr(swapped.clone()).is_err(), "decoded under a wrong prefix: {}", swapped);
    }
    let n = g.below(60);
    let d = g.bytes(33 + n);
    let pk = Pubkey::from_slice(&d[..33]);
    same!("address of a public key", Address::from_pk(p.as_str(), &pk).cash_addr(), cashaddr::encode(&p, false, &hash::hash160(&d[..33])));
    c.saw(14);
    Ok(())
}
fn reject(s: &str, why: &str) -> R {
    match Address::from_cash_addr(s.to_string()) {
        Err(_) => Ok(()),
        Ok(a) => Err(format!("{} accepted as {:?} {} {}", why, a.addr_type(), a.prefix_str(), hex(a.hash().as_slice()))),
    }
}
const LETTERS: &[u8] = b"qpzry9x8gf2tvdw0s3jn54khce6mua7l";
fn altered(g: &mut Gen, c: &mut Case, k: usize) -> R {
    let (p, h, p2sh) = (gen_prefix(g), gen_hash(g), g.chance(1, 2));
    let good = cashaddr::encode(&p, p2sh, &h);
    let mut v = good.clone().into_bytes();
    let bare = p == "bitcoincash" && g.chance(1, 3);
    let off = p.len() + 1;
    let mut done = vec![];
    // a burst, the checksum itself, or anywhere
    let style = g.below(3);
    let start = g.below(v.len() - off - k);
    while done.len() < k {
        let i = match style {
            0 => off + start + done.len(),
            1 => v.len() - 1 - g.below(8),
            _ => off + g.below(v.len() - off),
        };
        if done.contains(&i) {
            continue;
        }
        let old = v[i];
        loop {
            v[i] = if g.chance(9, 10) { *g.pick(LETTERS) } else { *g.pick(b"bio1:-_ ~\x00\x7f") };
            if v[i] != old {
                break;
            }
        }
        done.push(i);
    }
    let s = String::from_utf8(if bare { v[off..].to_vec() } else { v }).unwrap();
    c.input(s.clone());
    c.class(format!("{} altered characters", k));
    c.saw(1);
    reject(&s, "corrupted address")?;
    reject(&s.to_uppercase(), "corrupted upper-case address")
}
fn judge(c: &mut Case, s: &str) -> R {
    c.input(s.to_string());
    c.saw(1);
    let want = cashaddr::decode("bitcoincash", s);
    match (&want, Address::from_cash_addr(s.to_string())) {
        (Ok((p, p2sh, h)), Ok(a)) => {
            c.class("accepted");
            is(&a, p, *p2sh, h)?;
            same!("text", a.cash_addr(), s);
            Ok(())
        }
        (Ok(_), Err(e)) => Err(format!("valid address {} refused: {}", s, e)),
        (Err(why), Ok(a)) => Err(format!("invalid address ({}) accepted as {:?} {}", why, a.addr_type(), hex(a.hash().as_slice()))),
        (Err(why), Err(_)) => {
            c.class(format!("rejected: {}", why));
            Ok(())
        }
    }
}
fn forged(g: &mut Gen, c: &mut Case) -> R {
    let p = if g.chance(1, 2) { "bitcoincash".to_string() } else { gen_prefix(g) };
    let body = match g.below(5) {
        0 => {
            // arbitrary symbols
            let n = if g.chance(1, 3) { 34 } else { g.below(130) };
            let v: Vec<u8> = (0..n).map(|_| g.below(32) as u8).collect();
            cashaddr::forge(&p, &v)
        }
        1 => {
            // any version, any size
            let n = *g.pick(&[0usize, 1, 19, 20, 20, 20, 21, 24, 28, 32, 40, 48, 56, 64]);
            let d = g.bytes(n);
            let v = if g.chance(1, 2) { *g.pick(&[0u8, 8]) } else { g.u8() };
            cashaddr::encode_body(&p, v, &d)
        }
        2 => {
            // non-zero padding or an excess symbol
            let n = *g.pick(&[18usize, 19, 20, 20, 20, 20, 21, 22, 23, 24]);
            let mut d = vec![*g.pick(&[0u8, 8])];
            d.extend(g.bytes(n));
            let mut v = cashaddr::to5(&d);
            if g.chance(2, 3) {
                let l = v.len() - 1;
                v[l] |= g.below(32) as u8;
            }
            if g.chance(1, 2) {
                let k = g.range(1, 9);
                for _ in 0..k {
                    v.push(if g.chance(1, 2) { 0 } else { g.below(32) as u8 });
                }
            }
            if g.chance(1, 5) {
                let l = g.below(v.len());
                v.truncate(l);
            }
            cashaddr::forge(&p, &v)
        }
        3 => {
            let n = g.below(12);
            let v: Vec<u8> = (0..n).map(|_| g.below(32) as u8).collect();
            cashaddr::forge(&p, &v)
        }
        _ => cashaddr::encode_body(&p, *g.pick(&[0u8, 8]), &gen_hash(g)),
    };
    let s = if p == "bitcoincash" && g.chance(1, 3) { body } else { format!("{}:{}", p, body) };
    judge(c, &if g.chance(1, 6) { s.to_uppercase() } else { s })
}
fn hostile(g: &mut Gen, c: &mut Case) -> R {
    let (p, h, p2sh) = (gen_prefix(g), gen_hash(g), g.chance(1, 2));
    let mut v: Vec<char> = cashaddr::encode(&p, p2sh, &h).chars().collect();
    let k = g.range(1, 4);
    for _ in 0..k {
        let i = g.below(v.len() + 1);
        match g.below(9) {
            0 if i < v.len() => {
                v.remove(i);
            }
            1 => v.insert(i, *g.pick(&['q', ':', ' ', '\u{0}', '\u{e9}', '\u{130}', '\u{212a}', '\u{1f600}', '1', 'Q'])),
            2 => v.truncate(i),
            3 if i < v.len() => v[i] = *g.pick(&['q', 'p', ':', '\u{17f}', '\u{ff}', 'b', '\u{212a}', '"', '0']),
            4 => {
                let t = v.clone();
                v.extend(t);
            }
            5 => {
                v.insert(0, ':');
            }
            6 => {
                let n = g.below(12);
                v = (0..n).map(|_| *g.pick(LETTERS) as char).collect();
            }
            7 => {
                let n = g.below(60);
                v = String::from_utf8_lossy(&g.bytes(n)).chars().collect();
            }
            _ if i + 1 < v.len() => v.swap(i, i + 1),
            _ => (),
        }
        if v.is_empty() {
            break;
        }
    }
    judge(c, &v.into_iter().collect::<String>())
}
pub fn run(ctx: &mut Ctx) {
    ctx.rule("random and edge (prefix, type, hash) triples encoded and decoded, corrupted in 1 to 4 characters, forged payloads with valid checksums and hostile strings; judged by an independent CashAddr implementation");
    ctx.phase("exact and invertible", 15_000, 400_000, |g, c, _| exact(g, c));
    // every single-character substitution of some addresses
    ctx.exhaustive("every substitution", 4 * 42 * 32, |g, c, i| {
        let (which, pos, sym) = (i / (42 * 32), (i / 32 % 42) as usize, (i % 32) as usize);
        let h = if which < 2 { [which as u8 * 0xff; 20] } else { let mut h = [0; 20]; for (i, b) in h.iter_mut().enumerate() { *b = i as u8 * 13; } h };
        let _ = g;
        let good = cashaddr::encode("bitcoincash", which % 2 == 1, &h);
        let mut v = good.clone().into_bytes();
        v[12 + pos] = LETTERS[sym];
        let s = String::from_utf8(v).unwrap();
        c.input(s.clone());
        c.saw(1);
        if s == good {
            is(&Address::from_cash_addr(s).map_err(|e| e.to_string())?, "bitcoincash", which % 2 == 1, &h)
        } else {
            reject(&s, "corrupted address")
        }
    });
    for k in 1..=4 {
        ctx.phase(&format!("{} altered", k), 10_000, 300_000, |g, c, _| altered(g, c, k));
    }
    ctx.phase("forged checksums", 40_000, 1_500_000, |g, c, _| forged(g, c));
    ctx.phase("hostile strings", 40_000, 1_500_000, |g, c, _| hostile(g, c));
}

//! C11 ECDSA back ends. Besides judging its own back end, this monitor writes an event log; the driver runs it
//! once per back end and compares the logs offline.
use super::c10::{gen_secret, init_ecc};
use crate::framework::*;
use crate::oracle::{ec, hex};
use crate::prng::Gen;
use crate::{ensure, same};
use bitcoin_cash::error::Error;
use bitcoin_cash::*;
use num::BigUint;
use std::cell::RefCell;
use std::io::Write;

fn gen_msg(g: &mut Gen) -> [u8; 32] {
    match g.below(10) {
        0 => [0; 32],
        1 => [0xff; 32],
        2 => ec::be32(&(ec::n() - BigUint::from(1u8))),
        3 => ec::be32(&ec::n()),
        4 => ec::be32(&(ec::n() + BigUint::from(1u8))),
        _ => {
            let mut m = [0; 32];
            m.copy_from_slice(&g.bytes(32));
            m
        }
    }
}
fn gen_scalar(g: &mut Gen) -> BigUint {
    let one = BigUint::from(1u8);
    let n = ec::n();
    match g.below(10) {
        0 => one,
        1 => &n - one,
        2 => &n >> 1,
        3 => (&n >> 1) + one,
        4 => BigUint::from(g.below(300) as u32 + 1),
        5 => BigUint::from_bytes_be(&g.bytes(1 + 5)) + one,
        _ => BigUint::from_bytes_be(&g.bytes(32)) % (&n - &one) + one,
    }
}
fn size_err<T: std::fmt::Debug>(r: Result<T, Error>, what: &str) -> R {
    match r {
        Err(_) => Ok(()),
        Ok(v) => Err(format!("{} accepted: {:?}", what, v)),
    }
}
/// The nonce of a message not below the group order depends on whether a back end reduces it first, so the signature
/// itself is only comparable below it.
fn log_signature(k: &[u8; 32], m: &[u8; 32], pk: &[u8], sig: &[u8], log: &dyn Fn(String)) {
    let sig = if BigUint::from_bytes_be(m) < ec::n() { hex(sig) } else { "-".into() };
    log(format!("{} {} {} {}", hex(k), hex(m), hex(pk), sig));
}
fn laws(g: &mut Gen, c: &mut Case, log: &dyn Fn(String)) -> R {
    let ecc = init_ecc();
    let k = gen_secret(g);
    let m = gen_msg(g);
    c.input(format!("secret {} message {}", hex(&k), hex(&m)));
    c.saw(1);
    let pk = ecc.derive_pubkey(&k).map_err(|e| format!("derive_pubkey: {}", e))?;
    same!("public key", hex(pk.as_slice()), hex(&ec::pubkey(&k)));
    let sig = ecc.sign(&k, m.to_vec()).map_err(|e| format!("sign: {}", e))?;
    log_signature(&k, &m, pk.as_slice(), &sig, log);
    let again = ecc.sign(&k, m.to_vec()).map_err(|e| format!("sign: {}", e))?;
    same!("second signature", hex(&again), hex(&sig));
    let (r, s) = ec::parse_der(&sig).ok_or_else(|| format!("signature is not strict DER: {}", hex(&sig)))?;
    ensure!(ec::is_low_s(&s), "signature has a high S: {}", hex(&sig));
    ensure!(sig.len() <= MAX_SIGNATURE_SIZE, "signature of {} bytes", sig.len());
    ensure!(ec::verify(pk.as_slice(), &m, &r, &s), "independent verification rejects {}", hex(&sig));
    same!("own verification", ecc.verify(pk.as_slice(), &m, &sig).map_err(|e| e.to_string())?, true);
    same!("provenance function", sig.function(), Function::EcdsaSign);
    // normalising: idempotent on low S, and high S becomes this signature
    same!("normalised low-S signature", hex(&ecc.normalize_sig(&sig).map_err(|e| e.to_string())?), hex(&sig));
    let high = ec::der(&r, &(ec::n() - &s));
    same!("normalised high-S signature", hex(&ecc.normalize_sig(&high).map_err(|e| e.to_string())?), hex(&sig));
    // other messages and keys
    let mut m2 = m;
    m2[g.below(32)] ^= 1 << g.below(8);
    let same_residue = BigUint::from_bytes_be(&m) % ec::n() == BigUint::from_bytes_be(&m2) % ec::n();
    if !same_residue {
        same!("verdict on a changed message", ecc.verify(pk.as_slice(), &m2, &sig).map_err(|e| e.to_string())?, false);
    }
    let k2 = gen_secret(g);
    if k2 != k {
        let pk2 = ec::pubkey(&k2);
        // a second key satisfies the equation only by (negligible) accident; ask the oracle
        let want = ec::verify(&pk2, &m, &r, &s);
        same!("verdict under another key", ecc.verify(&pk2, &m, &sig).map_err(|e| e.to_string())?, want);
    }
    let mut neg = pk.as_slice().to_vec();
    neg[0] ^= 1;
    let want = ec::verify(&neg, &m, &r, &s);
    same!("verdict under the negated key", ecc.verify(&neg, &m, &sig).map_err(|e| e.to_string())?, want);
    c.class(format!("{}-byte signature", sig.len()));
    Ok(())
}
fn wellformed(g: &mut Gen, c: &mut Case, log: &dyn Fn(String)) -> R {
    // any in-range (r, s): the verdict is the textbook one when S is low, and normalising only replaces S by its smaller twin
    let ecc = init_ecc();
    let (r, s) = (gen_scalar(g), gen_scalar(g));
    let sig = ec::der(&r, &s);
    let k = gen_secret(g);
    let m = gen_msg(g);
    c.input(format!("sig {} secret {} message {}", hex(&sig), hex(&k), hex(&m)));
    c.saw(1);
    let low = if ec::is_low_s(&s) { s.clone() } else { ec::n() - &s };
    c.class(if low == s { "low S" } else { "high S" });
    let nrm = ecc.normalize_sig(&sig).map_err(|e| format!("well-formed signature {} not normalised: {}", hex(&sig), e))?;
    log(format!("{} -> {}", hex(&sig), hex(&nrm)));
    same!("normalised signature", hex(&nrm), hex(&ec::der(&r, &low)));
    let pk = ec::pubkey(&k);
    let want = ec::verify(&pk, &m, &r, &low);
    match ecc.verify(&pk, &m, &nrm) {
        Ok(v) => same!("verdict on an arbitrary signature", v, want),
        Err(e) => return Err(format!("well-formed signature {} is an error: {}", hex(&nrm), e)),
    }
    log(format!("{} {} {} {}", hex(&pk), hex(&m), hex(&nrm), want));
    Ok(())
}
fn lenient(g: &mut Gen, c: &mut Case, log: &dyn Fn(String)) -> R {
    // the same numbers in the sloppy encodings that pre-BIP66 signatures have
    let ecc = init_ecc();
    let (r, s) = (gen_scalar(g), gen_scalar(g));
    let low = if ec::is_low_s(&s) { s.clone() } else { ec::n() - &s };
    let mut what = vec![];
    let mut int = |v: &BigUint, g: &mut Gen, name: &str| -> Vec<u8> {
        let mut b = v.to_bytes_be();
        match g.below(4) {
            0 => {
                let n = *g.pick(&[1usize, 1, 2, 8, 40]);
                b = [vec![0; n], b].concat();
                what.push(format!("{} padded", name));
            }
            1 if b[0] & 0x80 != 0 => what.push(format!("{} without its sign byte", name)),
            _ => {
                if b[0] & 0x80 != 0 {
                    b.insert(0, 0);
                }
            }
        }
        let mut o = vec![2];
        if g.chance(1, 4) {
            let z = g.below(3);
            o.push(0x81 + z as u8);
            o.extend(vec![0; z]);
            o.push(b.len() as u8);
            what.push(format!("long length of {}", name));
        } else {
            o.push(b.len() as u8);
        }
        o.extend(b);
        o
    };
    let mut body = int(&r, g, "R");
    body.extend(int(&s, g, "S"));
    let mut sig = vec![0x30];
    match if body.len() > 127 { 0 } else { g.below(4) } {
        0 => {
            sig.extend(&[0x81, body.len() as u8]);
            what.push("long length of the sequence".into());
        }
        1 => {
            sig.push((body.len() + g.below(9)).min(127) as u8);
            what.push("inexact length of the sequence".into());
        }
        _ => sig.push(body.len() as u8),
    }
    sig.extend(body);
    if g.chance(1, 4) {
        let n = 1 + g.below(5);
        sig.extend(g.bytes(n));
        what.push("trailing bytes".into());
    }
    c.input(format!("sig {} ({})", hex(&sig), what.join(", ")));
    c.saw(1);
    if what.is_empty() {
        c.trivial();
    }
    for w in &what {
        c.class(w.clone());
    }
    match ecc.normalize_sig(&sig) {
        Ok(n) => {
            log(format!("{} -> {}", hex(&sig), hex(&n)));
            same!("normalised lenient signature", hex(&n), hex(&ec::der(&r, &low)));
        }
        Err(e) => return Err(format!("lenient signature {} not normalised: {}", hex(&sig), e)),
    }
    Ok(())
}
fn forged(g: &mut Gen, c: &mut Case, log: &dyn Fn(String)) -> R {
    // valid signatures with chosen (also extreme) nonces, not only those the back end itself would make
    let ecc = init_ecc();
    let k = gen_secret(g);
    let m = gen_msg(g);
    let nonce = ec::be32(&gen_scalar(g));
    let rx = ec::pubkey(&nonce);
    let n = ec::n();
    let r = BigUint::from_bytes_be(&rx[1..]) % &n;
    let kb = BigUint::from_bytes_be(&nonce);
    let s = kb.modpow(&(&n - BigUint::from(2u8)), &n) * (BigUint::from_bytes_be(&m) + &r * BigUint::from_bytes_be(&k)) % &n;
    let z = BigUint::from(0u8);
    if r == z || s == z {
        c.trivial();
        return Ok(());
    }
    let sig = ec::der(&r, &s);
    c.input(format!("secret {} message {} sig {}", hex(&k), hex(&m), hex(&sig)));
    c.saw(1);
    let pk = ec::pubkey(&k);
    let nrm = ecc.normalize_sig(&sig).map_err(|e| e.to_string())?;
    same!("verdict on a valid foreign signature", ecc.verify(&pk, &m, &nrm).map_err(|e| e.to_string())?, true);
    log(format!("{} {} {} ok", hex(&pk), hex(&m), hex(&nrm)));
    Ok(())
}
fn hostile(g: &mut Gen, c: &mut Case) -> R {
    let ecc = init_ecc();
    let k = gen_secret(g);
    let m = gen_msg(g);
    let pk = ec::pubkey(&k).to_vec();
    let sig = ecc.sign(&k, m.to_vec()).map_err(|e| e.to_string())?.to_vec();
    c.saw(1);
    match g.below(6) {
        0 => {
            // keys
            let n = ec::n();
            let bad: Vec<u8> = match g.below(6) {
                0 => vec![0; 32],
                1 => ec::be32(&n).to_vec(),
                2 => ec::be32(&(n + BigUint::from(g.below(1000) as u32))).to_vec(),
                3 => vec![0xff; 32],
                4 => k[..g.below(32)].to_vec(),
                _ => {
                    let mut v = k.to_vec();
                    let x = g.range(1, 40);
                    v.extend(g.bytes(x));
                    v
                }
            };
            c.input(format!("secret {}", hex(&bad)));
            c.class("bad secret");
            size_err(ecc.sign(&bad, m.to_vec()), "signing with a bad secret")?;
            size_err(ecc.derive_pubkey(&bad), "public key of a bad secret")
        }
        1 => {
            let l = *g.pick(&[0usize, 1, 20, 31, 33, 64, 100]);
            let bad = g.bytes(l);
            c.input(format!("message {}", hex(&bad)));
            c.class("bad message");
            size_err(ecc.sign(&k, bad.clone()), "signing a message of wrong size")?;
            ensure!(!matches!(ecc.verify(&pk, &bad, &sig), Ok(true)), "signature verifies for a {}-byte message", l);
            size_err(ecc.verify(&pk, &bad, &sig), "verifying a message of wrong size")
        }
        2 => {
            let mut bad = pk.clone();
            match g.below(5) {
                0 => bad.truncate(g.below(33)),
                1 => bad.push(g.u8()),
                2 => bad[0] = g.u8(),
                3 => {
                    for b in bad.iter_mut().skip(1) {
                        *b = 0xff;
                    }
                }
                _ => {
                    let n = *g.pick(&[0usize, 1, 32, 33, 65, 66]);
                    bad = g.bytes(n);
                }
            }
            c.input(format!("pubkey {} message {} sig {}", hex(&bad), hex(&m), hex(&sig)));
            c.class("bad public key");
            let v = ecc.verify(&bad, &m, &sig);
            if bad.len() == 33 && ec::parse_compressed(&bad).is_some() {
                let (r, s) = ec::parse_der(&sig).unwrap();
                same!("verdict", v.map_err(|e| e.to_string())?, ec::verify(&bad, &m, &r, &s));
            } else {
                ensure!(!matches!(v, Ok(true)), "signature verifies under the malformed key {}", hex(&bad));
            }
            Ok(())
        }
        3 | 4 => {
            let mut bad = sig.clone();
            match g.below(7) {
                0 => bad.truncate(g.below(sig.len())),
                1 => {
                    let n = g.range(1, 3);
                    bad.extend(g.bytes(n));
                }
                2 => {
                    let p = g.below(8.min(bad.len()));
                    bad[p] = g.u8();
                }
                3 => {
                    let p = g.below(bad.len());
                    bad[p] ^= 1 << g.below(8);
                }
                4 => {
                    // lengths pointing outside
                    let p = *g.pick(&[1usize, 3]);
                    bad[p] = *g.pick(&[0, 1, 0x7f, 0x80, 0x81, 0x84, 0x88, 0xff]);
                }
                5 => {
                    // zero or over-range scalars
                    let z = BigUint::from(0u8);
                    let big = (BigUint::from(1u8) << 256) - BigUint::from(1u8);
                    let o = [z, ec::n(), big];
                    let (r, s) = ec::parse_der(&sig).unwrap();
                    bad = if g.chance(1, 2) { der0(g.pick(&o), &s) } else { der0(&r, g.pick(&o)) };
                }
                _ => {
                    let n = g.below(80);
                    bad = g.bytes(n);
                    if n > 4 {
                        bad[0] = 0x30;
                        bad[1] = (n - 2) as u8;
                        bad[2] = 2;
                    }
                }
            }
            c.input(format!("sig {} pubkey {} message {}", hex(&bad), hex(&pk), hex(&m)));
            let strict = ec::parse_der(&bad);
            let truth = strict.as_ref().map_or(false, |(r, s)| ec::verify(&pk, &m, r, s));
            c.class(if strict.is_some() { "damaged but well-formed signature" } else { "malformed signature" });
            let v = ecc.verify(&pk, &m, &bad);
            ensure!(truth || !matches!(v, Ok(true)), "damaged signature {} verifies", hex(&bad));
            if let Ok(n) = ecc.normalize_sig(&bad) {
                // whatever is accepted, the result must again be a well-formed low-S signature or unverifiable
                if !truth {
                    let lax = ecc.verify(&pk, &m, &n);
                    if let Ok(true) = lax {
                        // lenient parsing may repair the encoding of the very same numbers, nothing else
                        same!("normalised damaged signature that verifies", hex(&n), hex(&sig));
                    }
                }
            }
            Ok(())
        }
        _ => {
            let n = g.below(100);
            let (a, b) = (g.below(70), g.below(40));
            let (sg, p, ms) = (g.bytes(n), g.bytes(a), g.bytes(b));
            c.input(format!("sig {} pubkey {} message {}", hex(&sg), hex(&p), hex(&ms)));
            c.class("random bytes");
            ensure!(!matches!(ecc.verify(&p, &ms, &sg), Ok(true)), "random bytes verify");
            let _ = ecc.normalize_sig(&sg);
            if !ec::valid_secret(&p) {
                size_err(ecc.derive_pubkey(&p), "public key of random bytes")?;
            }
            Ok(())
        }
    }
}
/// DER of possibly zero integers
fn der0(r: &BigUint, s: &BigUint) -> Vec<u8> {
    let i = |v: &BigUint| {
        let mut b = v.to_bytes_be();
        if b[0] & 0x80 != 0 {
            b.insert(0, 0);
        }
        let mut o = vec![2, b.len() as u8];
        o.extend(b);
        o
    };
    let mut b = i(r);
    b.extend(i(s));
    let mut o = vec![0x30, b.len() as u8];
    o.extend(b);
    o
}
pub fn run(ctx: &mut Ctx) {
    ctx.rule("random and extreme keys, messages, nonces and signatures through sign, verify, derive_pubkey and normalize_sig of one back end, judged by an independent big-integer ECDSA; the same seeds run on the other back end and the event logs are compared");
    // (without a directory, as when C31 runs these cases, there is no log)
    let to = if ctx.o.outdir.is_empty() { None } else { Some(std::io::BufWriter::new(std::fs::File::create(format!("{}/ecc-log-{}", ctx.o.outdir, ctx.o.shard.0)).expect("log"))) };
    let f = RefCell::new(to);
    let log = |phase: &str, i: u64, s: String| {
        if let Some(f) = f.borrow_mut().as_mut() {
            let _ = writeln!(f, "{}#{}\t{}", phase, i, s);
        }
    };
    ctx.exhaustive("edge keys", 40, |g, c, i| {
        let ecc = init_ecc();
        let n = ec::n();
        let d = BigUint::from((i / 2) as u32);
        let v = if i % 2 == 0 { d } else { &n + BigUint::from(10u8) - d };
        let k = ec::be32(&v);
        c.input(hex(&k));
        c.saw(1);
        let m = gen_msg(g);
        if ec::valid_secret(&k) {
            let p = ecc.derive_pubkey(&k).map_err(|e| e.to_string())?;
            same!("public key", hex(p.as_slice()), hex(&ec::pubkey(&k)));
            let s = ecc.sign(&k, m.to_vec()).map_err(|e| e.to_string())?;
            log_signature(&k, &m, p.as_slice(), &s, &|s| log("edge keys", i, s));
            same!("verdict", ecc.verify(p.as_slice(), &m, &s).map_err(|e| e.to_string())?, true);
            Ok(())
        } else {
            c.class("out of range");
            size_err(ecc.sign(&k, m.to_vec()), "signing")?;
            size_err(ecc.derive_pubkey(&k), "public key")
        }
    });
    ctx.phase("signature laws", 250, 8_000, |g, c, i| laws(g, c, &|s| log("signature laws", i, s)));
    ctx.phase("well-formed signatures", 400, 10_000, |g, c, i| wellformed(g, c, &|s| log("well-formed signatures", i, s)));
    ctx.phase("lenient encodings", 400, 10_000, |g, c, i| lenient(g, c, &|s| log("lenient encodings", i, s)));
    ctx.phase("valid foreign signatures", 200, 6_000, |g, c, i| forged(g, c, &|s| log("valid foreign signatures", i, s)));
    ctx.phase("hostile", 1_500, 40_000, |g, c, _| hostile(g, c));
    f.borrow_mut().as_mut().map(|f| f.flush());
}

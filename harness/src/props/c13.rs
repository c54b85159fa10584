//! C13 Addresses and locking scripts.
use super::c12::{gen_hash, gen_prefix, is, ty};
use super::util::*;
use crate::framework::*;
use crate::oracle::{cashaddr, hash, hex, script};
use crate::prng::Gen;
use crate::{ensure, same};
use bitcoin_cash::*;

fn template(p2sh: bool, h: &[u8]) -> Vec<u8> {
    let mut v = if p2sh { vec![0xa9] } else { vec![0x76, 0xa9] };
    v.extend(script::push_minimal(h));
    v.extend(if p2sh { vec![0x87] } else { vec![0x88, 0xac] });
    v
}
fn address(g: &mut Gen, c: &mut Case) -> R {
    let (p, h, p2sh) = (gen_prefix(g), gen_hash(g), g.chance(1, 2));
    let text = cashaddr::encode(&p, p2sh, &h);
    c.input(text.clone());
    c.class(if p2sh { "P2SH" } else { "P2PKH" });
    c.saw(10);
    // from the hash, or from the text
    let a = if g.chance(1, 2) { Address::from_hash(p.as_str(), ty(p2sh), Hash160::new(h)) } else { Address::from_cash_addr(text.as_str()).map_err(|e| e.to_string())? };
    let s: Script = (&a).into();
    let t: Script = a.clone().into();
    let want = hex(&template(p2sh, &h));
    same!("locking script", hex(&script_bytes(&s)), want);
    same!("serialised locking script", hex(&s.ser_ops()), want);
    same!("locking script of an owned address", hex(&t.ser_ops()), want);
    match (p2sh, a.p2pkh_script()) {
        (false, Ok(x)) => same!("typed locking script", hex(&script_bytes(&x.into())), want),
        (true, Err(_)) => (),
        (false, Err(e)) => return Err(format!("no P2PKH script for a P2PKH address: {}", e)),
        (true, Ok(_)) => return Err("P2PKH script for a P2SH address".into()),
    }
    for (i, s) in [s.clone(), Script::deser_ops(ba(&template(p2sh, &h))).map_err(|e| e.to_string())?].iter().enumerate() {
        let d = script_destination(&p, s);
        match d.address() {
            Some(b) => {
                is(b, &p, p2sh, &h)?;
                same!("text of the classified address", b.cash_addr(), text);
                ensure!(*b == a, "classified address differs: {:?}", b);
            }
            None => return Err(format!("locking script ({}) classified as {:?}", if i == 0 { "built" } else { "decoded" }, d)),
        }
        ensure!(matches!(d, Destination::Address(_)), "address() set on {:?}", d);
        ensure!(script_p2pkh_spend(s).is_none(), "locking script is taken for a spend");
    }
    // the other template never carries this address
    let q = gen_prefix(g);
    match script_destination(&q, &s) {
        Destination::Address(b) => is(&b, &q, p2sh, &h)?,
        d => return Err(format!("classified as {:?}", d)),
    }
    // redeem scripts and public keys
    let redeem = if g.chance(1, 3) { s } else { Script::from_ops(gen_ops(g, 12, true)) };
    let r = Address::from_redeem_script(p.as_str(), redeem.clone()).map_err(|e| e.to_string())?;
    is(&r, &p, true, &hash::hash160(&script_bytes(&redeem)))?;
    same!("text of a redeem-script address", r.cash_addr(), cashaddr::encode(&p, true, &hash::hash160(&script_bytes(&redeem))));
    let k = g.bytes(33);
    is(&Address::from_pk(p.as_str(), &Pubkey::from_slice(&k)), &p, false, &hash::hash160(&k))?;
    Ok(())
}
enum Want {
    Addr(bool, Vec<u8>),
    Pk(Vec<u8>),
    Data(usize),
    Unknown,
}
fn code(o: Option<&Op>, b: u8) -> bool {
    matches!(o, Some(Op::Code(c)) if *c as u8 == b)
}
fn push(o: Option<&Op>) -> Option<Vec<u8>> {
    match o {
        Some(Op::PushByteArray { array, .. }) => Some(array.to_vec()),
        _ => None,
    }
}
fn expected(ops: &[Op]) -> Want {
    let n = ops.len();
    let at = |i: usize| ops.get(i);
    if n == 5 && code(at(0), 0x76) && code(at(1), 0xa9) && code(at(3), 0x88) && code(at(4), 0xac) {
        if let Some(h) = push(at(2)).filter(|h| h.len() == 20) {
            return Want::Addr(false, h);
        }
    }
    if n == 3 && code(at(0), 0xa9) && code(at(2), 0x87) {
        if let Some(h) = push(at(1)).filter(|h| h.len() == 20) {
            return Want::Addr(true, h);
        }
    }
    if n == 2 && code(at(1), 0xac) {
        if let Some(k) = push(at(0)) {
            return Want::Pk(k);
        }
    }
    if code(at(0), 0x6a) {
        return Want::Data(n - 1);
    }
    Want::Unknown
}
fn judge(c: &mut Case, prefix: &str, ops: &[Op], s: &Script) -> R {
    c.input(format!("prefix {} ops {:?}", prefix, ops));
    c.saw(2);
    let overlong = ops.iter().any(|o| matches!(o, Op::PushByteArray { array, is_minimal: false } if array.len() > 1));
    match (expected(ops), script_destination(prefix, s)) {
        (Want::Addr(p2sh, h), Destination::Address(a)) => {
            c.class("address");
            let mut hh = [0; 20];
            hh.copy_from_slice(&h);
            is(&a, prefix, p2sh, &hh)?;
            same!("text", a.cash_addr(), cashaddr::encode(prefix, p2sh, &hh));
        }
        (Want::Pk(k), Destination::P2PK(x)) => {
            c.class("public key");
            same!("public key", hex(&x), hex(&k));
        }
        (Want::Data(n), Destination::Nulldata(rest)) => {
            c.class("data");
            ensure!(rest.len() == n && rest.iter().zip(&ops[1..]).all(|(a, b)| op_eq(a, b)), "data output carries {:?}, script is {:?}", rest, ops);
        }
        (Want::Unknown, Destination::Unknown(x)) => {
            c.class("unknown");
            ensure!(x.ops().len() == ops.len() && x.ops().iter().zip(ops).all(|(a, b)| op_eq(&a.op, b)), "unknown script changed to {:?}", x);
        }
        // lengths no public key has, and over-long pushes of a hash, may also count as unknown
        (Want::Pk(k), Destination::Unknown(_)) if k.len() != 33 && k.len() != 65 => c.class("unknown"),
        (Want::Addr(..), Destination::Unknown(_)) if overlong => c.class("unknown"),
        (_, d) => return Err(format!("classified as {:?}", d)),
    }
    match (ops, script_p2pkh_spend(s)) {
        ([Op::PushByteArray { array: sig, .. }, Op::PushByteArray { array: pk, .. }], spend) if pk.len() == 33 && sig.len() > 0 => {
            let flag = *sig.as_slice().last().unwrap();
            match spend {
                Some(x) => {
                    c.class("spend");
                    same!("public key", hex(x.pubkey.as_slice()), hex(pk));
                    same!("signature hash flags", x.sig_hash_flags.bits(), flag as u32);
                }
                None => ensure!(![1, 2, 3].contains(&(flag & 0x1f)) || (flag & !0xdf) != 0, "spend not recognised"),
            }
        }
        (_, None) => (),
        (_, Some(x)) => return Err(format!("taken for a spend of {}", x.pubkey)),
    }
    Ok(())
}
fn near_miss(g: &mut Gen) -> Vec<Op> {
    let pushes = |g: &mut Gen| {
        let n = *g.pick(&[0usize, 1, 2, 19, 20, 20, 20, 21, 32, 33, 33, 64, 65, 71, 72, 73, 75, 76]);
        Op::PushByteArray { array: g.bytes(n).into(), is_minimal: g.chance(9, 10) }
    };
    let k = |b: u8| Op::Code(opcode(b));
    let h = |g: &mut Gen| if g.chance(4, 5) { Op::from_array(g.bytes(20)) } else { pushes(g) };
    let mut v = match g.below(6) {
        0 => vec![k(0x76), k(0xa9), h(g), k(0x88), k(0xac)],
        1 => vec![k(0xa9), h(g), k(0x87)],
        2 => vec![pushes(g), k(0xac)],
        3 => {
            let mut v = vec![k(0x6a)];
            v.extend(gen_ops(g, 4, false));
            v
        }
        4 => {
            let n = *g.pick(&[1usize, 1, 2, 65, 71, 72, 73]);
            let mut sig = g.bytes(n);
            sig[n - 1] = if g.chance(1, 2) { g.u8() } else { *g.pick(&[0x41, 0x42, 0x43, 0xc1, 0xc2, 0xc3, 1, 2, 3, 0x81]) };
            let m = if g.chance(3, 4) { 33 } else { 30 + g.below(6) };
            vec![Op::from_array(sig), Op::from_array(g.bytes(m))]
        }
        _ => gen_ops(g, 6, false),
    };
    let edits = if g.chance(1, 2) { 0 } else { g.range(1, 2) };
    for _ in 0..edits {
        let i = g.below(v.len() + 1);
        match g.below(5) {
            0 if i < v.len() => {
                v.remove(i);
            }
            1 => {
                let o = gen_op(g, false);
                v.insert(i, o);
            }
            2 if i < v.len() => v[i] = gen_op(g, false),
            3 if i < v.len() => v[i] = pushes(g),
            4 if i + 1 < v.len() => v.swap(i, i + 1),
            _ => v.truncate(i),
        }
    }
    v
}
pub fn run(ctx: &mut Ctx) {
    ctx.rule("random addresses turned into scripts and back; templates, near-miss templates and random scripts classified and compared with an independent classifier");
    ctx.phase("addresses", 8_000, 300_000, |g, c, _| address(g, c));
    ctx.phase("near misses", 40_000, 1_500_000, |g, c, _| {
        let ops = near_miss(g);
        let p = gen_prefix(g);
        judge(c, &p, &ops, &Script::from_ops(ops.clone()))
    });
    ctx.phase("decoded scripts", 20_000, 800_000, |g, c, _| {
        // classify what the wire says, including templates with over-long pushes
        let ops = near_miss(g);
        let mut b: Vec<u8> = ops.iter().flat_map(op_bytes).collect();
        if g.chance(1, 5) {
            let t = script::gen_script(g, 6, true, false);
            b = script::encode(&t);
        }
        match Script::deser_ops(ba(&b)) {
            Ok(s) => {
                let ops: Vec<Op> = s.ops().iter().map(|o| o.op.clone()).collect();
                let p = gen_prefix(g);
                judge(c, &p, &ops, &s)
            }
            Err(_) => {
                c.trivial();
                Ok(())
            }
        }
    });
    // one-operation changes of both templates, all opcodes
    ctx.exhaustive("every opcode in every place", 8 * 256, |g, c, i| {
        let (place, b) = ((i / 256) as usize, (i % 256) as u8);
        let _ = g;
        let op = match num::FromPrimitive::from_u8(b) {
            Some(o) => Op::Code(o),
            None => Op::Invalid(b),
        };
        let k = |b: u8| Op::Code(opcode(b));
        let h = Op::from_array(vec![7; 20]);
        let mut v = vec![k(0x76), k(0xa9), h.clone(), k(0x88), k(0xac)];
        if place < 5 {
            v[place] = op;
        } else {
            v = vec![k(0xa9), h, k(0x87)];
            v[place - 5] = op;
        }
        judge(c, "bitcoincash", &v, &Script::from_ops(v.clone()))
    });
}

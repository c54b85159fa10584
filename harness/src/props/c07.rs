//! C07 hashed transactions
use super::util::*;
use crate::framework::*;
use crate::oracle::hash::sha256d;
use crate::oracle::script::{self, Tok};
use crate::oracle::tx::*;
use crate::oracle::{compact, hex, rev};
use crate::prng::Gen;
use crate::{ensure, same};
use bitcoin_cash::*;

/// the invariant itself, on any hashed transaction
fn consistent(t: &Tx) -> R {
    let raw = t.raw().to_vec();
    same!("id", hex(t.hash().as_slice()), hex(&sha256d(&raw)));
    same!("displayed id", t.hash().to_string(), hex(&rev(&sha256d(&raw))));
    same!("id as hex", t.hash().to_hex_le(), hex(&rev(&sha256d(&raw))));
    let (o, n) = match OTx::parse(&raw) {
        Some(x) => x,
        None => return Err(format!("raw bytes are not a transaction: {}", hex(&raw))),
    };
    same!("raw bytes consumed", n, raw.len());
    let mut norm = o.clone();
    for i in &mut norm.ins {
        i.script = script::normalise(&script::tokenize(&i.script).ok_or("raw script does not tokenise")?);
    }
    for i in &mut norm.outs {
        i.script = script::normalise(&script::tokenize(&i.script).ok_or("raw script does not tokenise")?);
    }
    let shown = otx_of(t.unhashed_tx());
    same!("transaction exposed against raw bytes", hex(&shown.ser()), hex(&norm.ser()));
    let view = UnhashedTx { version: t.version(), inputs: t.inputs().to_vec(), outputs: t.outputs().to_vec(), lock_time: t.lock_time() };
    same!("accessors", hex(&otx_of(&view).ser()), hex(&shown.ser()));
    Ok(())
}
fn own(t: &Tx, o: &OTx) -> R {
    consistent(t)?;
    same!("raw", hex(t.raw()), hex(&o.ser()));
    same!("exposed transaction", hex(&otx_of(t.unhashed_tx()).ser()), hex(&o.ser()));
    same!("id of a known transaction", t.hash().to_string(), o.txid_display());
    Ok(())
}
fn step(g: &mut Gen, t: Tx, o: &mut OTx, c: &mut Case) -> Result<Tx, String> {
    c.saw(1);
    match g.below(6) {
        0 => {
            c.class("decode of serialised");
            let ser = t.ser();
            let mut want = compact(o.ser().len() as u64);
            want.extend(o.ser());
            same!("serialised hashed transaction", hex(&ser), hex(&want));
            let t2 = Tx::deser(ser).map_err(|e| e.to_string())?;
            Ok(t2)
        }
        1 => {
            c.class("decode from a stream");
            let extra = { let n = g.below(5); g.bytes(n) };
            let mut d = t.ser().to_vec();
            d.extend_from_slice(&extra);
            let (t2, rest) = Tx::deser_rest(d.into()).map_err(|e| e.to_string())?;
            same!("remainder", hex(&rest), hex(&extra));
            Ok(t2)
        }
        2 => {
            c.class("list of hashed transactions");
            let l = vec![t.clone(), Tx::deser(t.ser()).map_err(|e| e.to_string())?];
            let mut b = Vec::<Tx>::deser(l.ser()).map_err(|e| e.to_string())?;
            same!("list length", b.len(), 2);
            consistent(&b[0])?;
            Ok(b.pop().unwrap())
        }
        3 => {
            c.class("rehash after change");
            let mut u = t.into_unhashed_tx();
            match g.below(5) {
                0 => {
                    u.version ^= 1 << g.below(31);
                    o.version = u.version;
                }
                1 => {
                    u.lock_time = g.edge_u32();
                    o.lock_time = u.lock_time;
                }
                2 if !u.inputs.is_empty() => {
                    let k = g.below(u.inputs.len());
                    u.inputs[k].sequence ^= 1;
                    o.ins[k].seq ^= 1;
                    u.inputs.push(u.inputs[k].clone());
                    o.ins.push(o.ins[k].clone());
                }
                3 if !u.outputs.is_empty() => {
                    let k = g.below(u.outputs.len());
                    u.outputs[k].value ^= 1 << g.below(60);
                    o.outs[k].value = u.outputs[k].value;
                    u.outputs.reverse();
                    o.outs.reverse();
                }
                _ => {
                    u.outputs.push(TxOutput { value: 5, script: Script::from_ops(vec![]) });
                    o.outs.push(OOut { value: 5, script: vec![] });
                }
            }
            Ok(u.hashed())
        }
        4 => {
            c.class("annotate and rehash");
            let mut u = t.unhashed_tx().clone();
            for i in &mut u.inputs {
                i.value = Some(g.u64());
                i.lock_script = Some(Script::from_ops(gen_ops(g, 2, false)));
                i.is_p2sh = Some(true);
                i.sig_hash_flags = Some(vec![SigHashFlags::DEFAULT]);
            }
            Ok(u.hashed())
        }
        _ => {
            c.class("clone");
            Ok(t.clone())
        }
    }
}
pub fn run(ctx: &mut Ctx) {
    ctx.rule("random transactions taken through random histories of hashing, changing, encoding and decoding; after every step id, raw bytes and exposed transaction are compared with independent SHA-256d and codec");
    ctx.phase("histories", 6_000, 250_000, |g, c, i| {
        let big = i % 50 == 0;
        let mut o = gen_otx(g, false, big);
        c.input(show_tx(&o));
        let mut t = lib_tx(&o).hashed();
        own(&t, &o)?;
        for _ in 0..g.below(5) {
            t = step(g, t, &mut o, c)?;
            own(&t, &o)?;
        }
        Ok(())
    });
    ctx.phase("decoding raw with over-long pushes", 2_000, 60_000, |g, c, _| {
        // the raw bytes stay what they were and describe the decoded transaction
        let mut o = gen_otx(g, true, false);
        if o.ins.is_empty() {
            o.ins.push(OIn { txid: g.arr32(), vout: 0, script: script::encode(&[Tok::Push(0x4d, vec![7; 3])]), seq: 1 });
        }
        let raw = o.ser();
        c.input(hex(&raw));
        let mut d = compact(raw.len() as u64);
        d.extend_from_slice(&raw);
        let t = Tx::deser(d.into()).map_err(|e| e.to_string())?;
        c.saw(1);
        same!("raw", hex(t.raw()), hex(&raw));
        consistent(&t)?;
        let u = UnhashedTx::deser(raw.into()).map_err(|e| e.to_string())?;
        ensure!(&u == t.unhashed_tx(), "exposed transaction is not the decoded one");
        // hashing that transaction anew describes its own bytes
        consistent(&u.hashed())
    });
    ctx.phase("damaged encodings", 3_000, 60_000, |g, c, _| {
        let o = gen_otx(g, false, false);
        let mut raw = o.ser();
        match g.below(4) {
            0 => raw.push(g.u8()),
            1 => {
                raw.pop();
            }
            2 => {
                let k = g.below(raw.len());
                raw[k] ^= 1 << g.below(8);
            }
            _ => {
                let n = g.below(80);
                raw = g.bytes(n);
            }
        }
        let mut d = compact(raw.len() as u64);
        d.extend_from_slice(&raw);
        c.input(hex(&raw));
        c.saw(1);
        match Tx::deser(d.into()) {
            Ok(t) => {
                c.class("accepted");
                same!("raw", hex(t.raw()), hex(&raw));
                consistent(&t)
            }
            Err(_) => {
                c.class("rejected");
                Ok(())
            }
        }
    });
}

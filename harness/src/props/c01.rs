//! C01 wire round trip
use super::util::*;
use crate::framework::*;
use crate::oracle::script;
use crate::oracle::tx::*;
use crate::oracle::{compact, hex};
use crate::{ensure, same};
use bitcoin_cash::*;

fn compare(t: &OTx, l: &UnhashedTx) -> R {
    same!("version", l.version, t.version);
    same!("lock time", l.lock_time, t.lock_time);
    same!("number of inputs", l.inputs.len(), t.ins.len());
    same!("number of outputs", l.outputs.len(), t.outs.len());
    for (k, (a, b)) in l.inputs.iter().zip(&t.ins).enumerate() {
        same!(format!("input {} tx hash", k), hex(a.prev_out.tx_hash.as_slice()), hex(&b.txid));
        same!(format!("input {} vout", k), a.prev_out.vout, b.vout);
        same!(format!("input {} sequence", k), a.sequence, b.seq);
        let ops: Vec<_> = a.script.ops().to_vec();
        ops_match(&ops.iter().map(|o| &o.op).collect::<Vec<_>>(), &script::tokenize(&b.script).unwrap()).map_err(|e| format!("input {} script: {}", k, e))?;
        ensure!(a.lock_script.is_none() && a.value.is_none() && a.is_p2sh.is_none() && a.sig_hash_flags.is_none(), "input {}: metadata appeared from nowhere", k);
    }
    for (k, (a, b)) in l.outputs.iter().zip(&t.outs).enumerate() {
        same!(format!("output {} value", k), a.value, b.value);
        let ops: Vec<_> = a.script.ops().to_vec();
        ops_match(&ops.iter().map(|o| &o.op).collect::<Vec<_>>(), &script::tokenize(&b.script).unwrap()).map_err(|e| format!("output {} script: {}", k, e))?;
    }
    Ok(())
}
fn classes(c: &mut Case, t: &OTx) {
    let cnt = |n: usize| match n {
        0 => "0",
        1 => "1",
        2..=252 => "2..252",
        _ => ">=253",
    };
    c.class(format!("inputs {}", cnt(t.ins.len())));
    c.class(format!("outputs {}", cnt(t.outs.len())));
    for s in t.ins.iter().map(|i| &i.script).chain(t.outs.iter().map(|o| &o.script)) {
        c.class(format!(
            "script length {}",
            match s.len() {
                0 => "0",
                1..=252 => "1..252",
                253..=65535 => "253..65535",
                _ => ">=65536",
            }
        ));
        for t in script::tokenize(s).unwrap() {
            if let script::Tok::Push(o, _) = t {
                c.class(match o {
                    0x4c => "PUSHDATA1",
                    0x4d => "PUSHDATA2",
                    0x4e => "PUSHDATA4",
                    _ => "direct push",
                });
            }
        }
    }
}
pub fn run(ctx: &mut Ctx) {
    ctx.rule("random consensus transactions and library values over edge-biased fields, counts and scripts of every push class; non-trivial = at least one input or output");
    // bytes -> library -> bytes, canonical pushes only
    ctx.phase("parse-then-serialise", 12_000, 400_000, |g, c, _| {
        let big = g.chance(1, 12);
        let t = gen_otx(g, false, big);
        let raw = t.ser();
        c.input(hex(&raw));
        if t.ins.is_empty() && t.outs.is_empty() {
            c.trivial();
        }
        classes(c, &t);
        let l = UnhashedTx::deser(ba(&raw)).map_err(|e| format!("well-formed transaction rejected: {}", e))?;
        compare(&t, &l)?;
        same!("re-serialised transaction", hex(&l.ser()), hex(&raw));
        let tail = g.bytes(g.clone().below(5));
        let (l2, rest) = UnhashedTx::deser_rest(ba(&[&raw[..], &tail[..]].concat())).map_err(|e| e.to_string())?;
        same!("transaction read from a stream", l2, l);
        same!("rest of stream", rest.as_slice(), &tail[..]);
        for (i, o) in t.ins.iter().enumerate() {
            same!("outpoint bytes", hex(&l.inputs[i].prev_out.ser()), hex(&o.outpoint()));
            let p = TxOutpoint::deser(ba(&o.outpoint())).map_err(|e| e.to_string())?;
            same!("outpoint", p, l.inputs[i].prev_out);
            same!("outpoint vout", p.vout, o.vout);
            same!("input bytes", hex(&l.inputs[i].ser()), hex(&o.ser()));
            let p = TxInput::deser(ba(&o.ser())).map_err(|e| e.to_string())?;
            same!("input re-serialised", hex(&p.ser()), hex(&o.ser()));
            same!("input", p, l.inputs[i]);
            if i > 6 {
                break;
            }
        }
        for (i, o) in t.outs.iter().enumerate() {
            same!("output bytes", hex(&l.outputs[i].ser()), hex(&o.ser()));
            let p = TxOutput::deser(ba(&o.ser())).map_err(|e| e.to_string())?;
            same!("output re-serialised", hex(&p.ser()), hex(&o.ser()));
            same!("output", p, l.outputs[i]);
            if i > 6 {
                break;
            }
        }
        c.saw(6 + 6 * (t.ins.len() + t.outs.len()));
        Ok(())
    });
    // library value -> bytes -> library value
    ctx.phase("serialise-then-parse", 8_000, 300_000, |g, c, _| {
        let big = g.chance(1, 12);
        let (ni, no) = (gen_count(g, big), gen_count(g, big));
        let m = if ni + no > 20 { 2 } else { 8 };
        let mut tx = UnhashedTx { version: g.edge_u32() as i32, inputs: vec![], outputs: vec![], lock_time: g.edge_u32() };
        for _ in 0..ni {
            let prev = TxOutpoint { tx_hash: Sha256d::new(g.arr32()), vout: g.edge_u32() };
            let mut i = TxInput::new(prev, Script::from_ops(gen_ops(g, m, false)), g.edge_u32());
            if g.chance(1, 2) {
                // metadata is not part of the wire format
                i.value = Some(g.edge_u64());
                i.lock_script = Some(Script::from_ops(gen_ops(g, 3, false)));
                i.is_p2sh = Some(g.chance(1, 2));
                i.sig_hash_flags = Some(vec![SigHashFlags::DEFAULT]);
            }
            tx.inputs.push(i);
        }
        for _ in 0..no {
            tx.outputs.push(TxOutput { value: g.edge_u64(), script: Script::from_ops(gen_ops(g, m, big)) });
        }
        let want = otx_of(&tx);
        c.input(show_tx(&want));
        if ni + no == 0 {
            c.trivial();
        }
        classes(c, &want);
        let raw = tx.ser();
        same!("serialised transaction", hex(&raw), hex(&want.ser()));
        let back = UnhashedTx::deser(raw.clone()).map_err(|e| format!("own output rejected: {}", e))?;
        compare(&want, &back)?;
        same!("second serialisation", hex(&back.ser()), hex(&raw));
        c.saw(4);
        Ok(())
    });
    // length fields of every width, counts of every width
    ctx.phase("wide counts and lengths", 48, 600, |g, c, i| {
        let n = [0usize, 252, 253, 254, 255, 256, 300, 600][i as usize % 8];
        let len = [0usize, 252, 253, 65534, 65535, 65536, 65537, 70000][(i as usize / 8) % 8];
        let mut t = gen_otx(g, false, false);
        let mut body = if len == 0 { vec![] } else { script::push_prefixed(&g.bytes(len.saturating_sub(if len > 65539 { 5 } else if len > 258 { 3 } else if len > 77 { 2 } else { 1 }))) };
        while body.len() < len {
            body.push(0x61);
        }
        t.outs.push(OOut { value: 1, script: body });
        t.ins = (0..n).map(|k| OIn { txid: g.arr32(), vout: k as u32, script: vec![], seq: 0 }).collect();
        let raw = t.ser();
        c.input(format!("{} inputs, script of {} bytes, {}", n, len, clip(&hex(&raw), 4000)));
        classes(c, &t);
        let l = UnhashedTx::deser(ba(&raw)).map_err(|e| format!("well-formed transaction rejected: {}", e))?;
        compare(&t, &l)?;
        ensure!(l.ser().as_slice() == &raw[..], "re-serialised transaction differs");
        let outs: Vec<OOut> = (0..n).map(|k| OOut { value: k as u64, script: vec![0x51] }).collect();
        let t2 = OTx { version: 2, ins: vec![], outs, lock_time: 9 };
        let l2 = UnhashedTx::deser(ba(&t2.ser())).map_err(|e| format!("{} outputs rejected: {}", n, e))?;
        compare(&t2, &l2)?;
        same!("re-serialised", hex(&l2.ser()), hex(&t2.ser()));
        c.saw(2);
        Ok(())
    });
    // more of everything: scripts of many operations, more inputs and outputs than 8 bits can count at once
    ctx.phase("many operations, inputs and outputs", 24, 300, |g, c, i| {
        let nops = [254usize, 256, 257, 1000, 9999, 65_535, 65_536, 65_700][i as usize % 8];
        let n = [1usize, 253, 257, 520, 1000, 1, 2, 3][i as usize % 8] * if i % 16 < 8 { 1 } else { 2 };
        let mut t = gen_otx(g, false, false);
        let mut body = vec![];
        for _ in 0..nops {
            if nops <= 10_000 && g.chance(1, 4) {
                let m = 1 + g.below(40);
                let d = g.bytes(m);
                body.extend(script::push_minimal(&d));
            } else {
                body.push(*g.pick(&[0x51u8, 0x61, 0x75, 0x76, 0xa9, 0xac, 0xba, 0xff, 0x50]));
            }
        }
        let at = g.below(n);
        t.ins = (0..n).map(|k| OIn { txid: g.arr32(), vout: g.edge_u32(), script: if k == at { body.clone() } else { vec![0x51; k % 3] }, seq: g.edge_u32() }).collect();
        let at = g.below(n);
        t.outs = (0..n).map(|k| OOut { value: g.edge_u64(), script: if k == at { body.clone() } else { vec![0x52; k % 3] } }).collect();
        let raw = t.ser();
        c.input(format!("{} inputs and outputs, scripts of {} operations: {}", n, nops, clip(&hex(&raw), 3000)));
        classes(c, &t);
        let l = UnhashedTx::deser(ba(&raw)).map_err(|e| format!("well-formed transaction rejected: {}", e))?;
        compare(&t, &l)?;
        ensure!(l.ser().as_slice() == &raw[..], "re-serialised transaction differs");
        let h = l.hashed();
        ensure!(h.raw().as_slice() == &raw[..], "raw bytes of the hashed transaction differ");
        c.saw(3);
        Ok(())
    });
    // over-long pushes: recorded finding, the only accepted deviation is the exact normalised form
    ctx.phase("over-long pushes", 3_000, 100_000, |g, c, _| {
        let t = gen_otx(g, true, false);
        let raw = t.ser();
        c.input(hex(&raw));
        let l = UnhashedTx::deser(ba(&raw)).map_err(|e| format!("well-formed transaction rejected: {}", e))?;
        compare(&t, &l)?;
        let got = l.ser();
        if got.as_slice() == &raw[..] {
            c.trivial();
            return Ok(());
        }
        let norm = |s: &Vec<u8>| script::normalise(&script::tokenize(s).unwrap());
        let mut n = t.clone();
        let mut over = false;
        for i in n.ins.iter_mut() {
            over |= script::has_overlong(&script::tokenize(&i.script).unwrap());
            i.script = norm(&i.script);
        }
        for o in n.outs.iter_mut() {
            over |= script::has_overlong(&script::tokenize(&o.script).unwrap());
            o.script = norm(&o.script);
        }
        ensure!(over, "re-serialised transaction differs: got {}, expected {}", hex(&got), hex(&raw));
        same!("re-serialised transaction with over-long pushes (normalised form)", hex(&got), hex(&n.ser()));
        c.known("overlong-push: a push whose length field is wider than needed is re-serialised with the shorter length field");
        Ok(())
    });
    ctx.exhaustive("compact sizes", 70_000, |g, c, i| {
        let n = if i < 66_000 { i } else { g.edge_u64() };
        c.input(format!("compact size {}", n));
        same!("compact size", hex(&encoding_utils::encode_var_int(n)), hex(&compact(n)));
        let mut cur = std::io::Cursor::new(compact(n));
        let v = encoding_utils::read_var_int(&mut cur).map_err(|e| e.to_string())?;
        same!("decoded compact size", v, n);
        same!("bytes read", cur.position(), compact(n).len() as u64);
        Ok(())
    });
}

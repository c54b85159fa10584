//! C06 signature-hash preimages
use super::sig::*;
use super::util::*;
use crate::framework::*;
use crate::oracle::{hex, unhex};
use crate::prng::Gen;
use crate::{ensure, same};
use bitcoin_cash::*;

/// a library transaction carrying values and lock scripts for its inputs
fn annotated(g: &mut Gen, s: &Scene, outs: &[(u64, Vec<u8>)], scripts: bool) -> UnhashedTx {
    let mut t = lib_tx(&s.otx(outs));
    for (i, inp) in t.inputs.iter_mut().enumerate() {
        inp.value = Some(s.values[i]);
        inp.lock_script = Some(Script::from_ops(s.plans[i].lock.clone()));
        if scripts {
            // existing unlocking scripts are not part of the message
            inp.script = Script::from_ops(gen_ops(g, 3, false));
        }
    }
    t
}
fn check(pre: &[Vec<TxPreimage>], s: &Scene, outs: &[(u64, Vec<u8>)], flags: impl Fn(usize) -> Vec<u8>) -> R {
    let t = s.otx(outs);
    same!("inputs with preimages", pre.len(), s.ins.len());
    for i in 0..s.ins.len() {
        let f = flags(i);
        same!(format!("preimages of input {}", i), pre[i].len(), f.len());
        let code = s.plans[i].code_bytes();
        for (k, fl) in f.iter().enumerate() {
            let want = t.preimage(i, &code, s.values[i], *fl as u32);
            let got = pre[i][k].ser();
            same!(format!("preimage of input {} with hash type {:02x}", i, fl), hex(&got), hex(&want));
            // the hashes record what they were computed from
            let (acp, base) = (fl & 0x80 != 0, fl & 0x1f);
            let partial = base == 2 || base == 3;
            let args = [
                ("prevouts", &pre[i][k].hash_prevouts, if acp { None } else { Some(t.ins.iter().flat_map(|x| x.outpoint()).collect::<Vec<u8>>()) }),
                ("sequences", &pre[i][k].hash_sequence, if acp || partial { None } else { Some(t.ins.iter().flat_map(|x| x.seq.to_le_bytes().to_vec()).collect()) }),
                (
                    "outputs",
                    &pre[i][k].hash_outputs,
                    match base {
                        2 => None,
                        3 => t.outs.get(i).map(|o| o.ser()),
                        _ => Some(t.outs.iter().flat_map(|o| o.ser()).collect()),
                    },
                ),
            ];
            for (what, hash, arg) in args.iter() {
                let arr = hash.as_byte_array();
                match arg {
                    None => ensure!(arr.preimage().is_none(), "the zeroed hash of the {} has a preimage", what),
                    Some(arg) => {
                        ensure!(arr.function() == Function::Hash256, "function of the hash of the {}: {:?}", what, arr.function());
                        let p = arr.preimage().ok_or_else(|| format!("the hash of the {} has no preimage", what))?;
                        same!(format!("what was hashed for the {}", what), p.iter().map(|p| hex(p)).collect::<String>(), hex(arg));
                    }
                }
            }
            // as used for signing: the digest provenance is over the same bytes
            let d = Sha256d::digest(got);
            same!("signature hash", hex(d.as_slice()), hex(&t.sighash(i, &code, s.values[i], *fl as u32)));
        }
    }
    Ok(())
}
fn counts(g: &mut Gen) -> (usize, usize) {
    match g.below(200) {
        0 => (1, *g.pick(&[252usize, 253, 254])),
        1 => (*g.pick(&[252usize, 253, 254]), 1),
        2 | 70..=80 => (g.range(1, 4), 0),
        3 => (1, 1),
        4..=60 => (g.range(2, 5), 1),
        _ => (g.range(1, 6), g.below(7)),
    }
}
fn classes(c: &mut Case, f: u8, idx_has_output: bool) {
    let b = match f & 0x1f {
        1 => "ALL",
        2 => "NONE",
        3 => {
            if idx_has_output {
                "SINGLE"
            } else {
                "SINGLE out of range"
            }
        }
        _ => "other base",
    };
    c.class(format!("{}{}{}", b, if f & 0x80 != 0 { "|ANYONECANPAY" } else { "" }, if f & 0x40 != 0 { "|FORKID" } else { "" }));
}
pub fn run(ctx: &mut Ctx) {
    ctx.rule("random transactions with annotated inputs; every preimage obtained is compared byte for byte with an independent BIP143 implementation; all 256 hash types are used in the exhaustive phase");
    ctx.exhaustive("named hash types", 1, |_, c, _| {
        c.input("ALL NONE SINGLE FORKID ANYONECANPAY DEFAULT");
        for (f, b) in [
            (SigHashFlags::ALL, 1u32),
            (SigHashFlags::NONE, 2),
            (SigHashFlags::SINGLE, 3),
            (SigHashFlags::FORKID, 0x40),
            (SigHashFlags::ANYONECANPAY, 0x80),
            (SigHashFlags::DEFAULT, 0x41),
            (SigHashFlags::NONE | SigHashFlags::FORKID, 0x42),
            (SigHashFlags::SINGLE | SigHashFlags::FORKID | SigHashFlags::ANYONECANPAY, 0xc3),
        ]
        .iter()
        {
            same!(format!("byte of {:?}", f), f.bits() as u32, *b);
        }
        c.saw(8);
        Ok(())
    });
    ctx.exhaustive("all hash types", 256, |g, c, f| {
        for (ni, no) in [(1, 0), (1, 1), (3, 2), (2, 3)].iter() {
            let s = gen_scene(g, *ni, false);
            let outs = gen_outs(g, *no);
            c.input(format!("flags {:02x} tx {} {}", f, show_tx(&s.otx(&outs)), s.show()));
            let t = annotated(g, &s, &outs, false);
            let pre = t.preimages(&[SigHashFlags::from_u8(f as u8)]);
            for i in 0..*ni {
                classes(c, f as u8, i < *no);
            }
            c.saw(*ni);
            check(&pre, &s, &outs, |_| vec![f as u8])?;
        }
        Ok(())
    });
    ctx.phase("transactions", 4_000, 150_000, |g, c, _| {
        let (ni, no) = counts(g);
        let s = gen_scene(g, ni, true);
        let outs = gen_outs(g, no);
        let nf = g.below(4);
        let flags: Vec<u8> = (0..nf).map(|_| gen_flag(g)).collect();
        c.input(format!("flags {} tx {} {}", hex(&flags), show_tx(&s.otx(&outs)), s.show()));
        if nf == 0 {
            c.trivial();
        }
        let t = annotated(g, &s, &outs, true);
        let fl: Vec<_> = flags.iter().map(|f| SigHashFlags::from_u8(*f)).collect();
        for f in &flags {
            classes(c, *f, ni <= no);
        }
        for p in &s.plans {
            let n = p.lock.iter().filter(|o| matches!(o, Op::Code(Opcode::OP_CODESEPARATOR))).count();
            c.class(format!("lock script with {} code separators", n.min(3)));
        }
        c.saw(ni * nf);
        check(&t.preimages(&fl), &s, &outs, |_| flags.clone())?;
        if g.chance(1, 4) {
            let h = t.clone().hashed();
            check(&h.preimages(&fl), &s, &outs, |_| flags.clone())?;
        }
        Ok(())
    });
    ctx.phase("builder", 3_000, 100_000, |g, c, _| {
        let ni = if g.chance(1, 250) { 253 } else { g.range(1, 6) };
        let s = gen_scene(g, ni, true);
        let no = g.below(5);
        let mut outs = gen_outs(g, no);
        let total: u64 = s.values.iter().sum();
        let without = g.chance(1, 3);
        if !without {
            for o in outs.iter_mut() {
                o.0 = if total == 0 { 0 } else { o.0 % (total / (2 * no as u64) + 1) };
            }
        }
        let leftover = !without && g.chance(1, 2);
        c.input(format!("outs {} leftover {} {}", hex(&ser_outs(&outs)), leftover, s.show()));
        let log = new_log();
        let mut b = s.builder(1000, &log);
        for o in &outs {
            b.add_output(lib_out(o));
        }
        let ls = vec![0x51u8, 0x6a];
        if leftover {
            b.add_leftover_output(Script::from_ops(ops_of(&ls)));
        }
        let u = if without { b.build_without_estimation() } else { b.build() }.map_err(|e| e.to_string())?;
        let pre: Vec<Vec<TxPreimage>> = u.preimages().to_vec();
        for i in 0..ni {
            let r: Vec<Vec<u8>> = if s.plans[i].one {
                vec![u.input_preimages(InputReference::<Probe1>::new(i)).ser().to_vec()]
            } else {
                u.input_preimages(InputReference::<ProbeN>::new(i)).iter().map(|p| p.ser().to_vec()).collect()
            };
            let all: Vec<Vec<u8>> = pre[i].iter().map(|p| p.ser().to_vec()).collect();
            ensure!(r == all, "input_preimages of input {} differ from preimages()[{}]", i, i);
        }
        let t = u.partial_tx();
        let real: Vec<(u64, Vec<u8>)> = t.outputs.iter().map(|o| (o.value, script_bytes(&o.script))).collect();
        ensure!(real.starts_with(&outs) && real.len() <= outs.len() + leftover as usize, "outputs changed: {:?} -> {:?}", outs, real);
        c.class(if real.len() > outs.len() { "leftover output present" } else { "no leftover output" });
        c.saw(s.plans.iter().map(|p| p.flags.len()).sum());
        if s.plans.iter().all(|p| p.flags.is_empty()) {
            c.trivial();
        }
        check(&pre, &s, &real, |i| s.plans[i].flags.clone())?;
        // the exported (annotated) transaction gives the same messages
        let f = gen_flag(g);
        check(&t.preimages(&[SigHashFlags::from_u8(f)]), &s, &real, |_| vec![f])
    });
    ctx.phase("many inputs, outputs and hash types", 14, 300, |g, c, i| {
        let sizes: &[(usize, usize, usize)] = &[(3, 2, 300), (2, 300, 3), (300, 2, 2), (260, 258, 2), (258, 257, 1), (1, 1, 256), (400, 700, 1)];
        let (ni, no, nf) = sizes[i as usize % sizes.len()];
        let mut s = gen_scene(g, ni, false);
        for p in s.plans.iter_mut() {
            p.lock.truncate(2);
        }
        if i % 2 == 1 {
            // equal fields all over
            for x in s.ins.iter_mut() {
                x.seq = 0;
                x.vout = 1;
            }
        }
        let outs = gen_outs(g, no);
        let flags: Vec<u8> = (0..nf).map(|_| if i % 3 == 0 { 0x43 } else { gen_flag(g) }).collect();
        c.input(format!("{} inputs {} outputs flags {} (case {})", ni, no, hex(&flags), i));
        let t = annotated(g, &s, &outs, false);
        let fl: Vec<_> = flags.iter().map(|f| SigHashFlags::from_u8(*f)).collect();
        c.saw(ni * nf);
        check(&t.preimages(&fl), &s, &outs, |_| flags.clone())
    });
    ctx.exhaustive("published vector", 1, |_, c, _| {
        // BIP143 native P2WPKH example: the digest layout is shared
        let raw = unhex("0100000002fff7f7881a8099afa6940d42d1e7f6362bec38171ea3edf433541db4e4ad969f0000000000eeffffffef51e1b804cc89d182d279655c3aa89e815b1b309fe287d9b2b55d57b90ec68a0100000000ffffffff02202cb206000000001976a9148280b37df378db99f66f85c95a783a76ac7a6d5988ac9093510d000000001976a9143bde42dbee7e4dbe6a21b2d50ce2f0167faa815988ac11000000").unwrap();
        c.input(hex(&raw));
        let mut t = UnhashedTx::deser(raw.into()).map_err(|e| e.to_string())?;
        for i in 0..2 {
            t.inputs[i].value = Some(600000000);
            t.inputs[i].lock_script = Some(Script::from_ops(ops_of(&unhex("76a9141d0f172a0ecb48aee1be1f2687d2963ae33f71a188ac").unwrap())));
        }
        c.saw(1);
        let p = t.preimages(&[SigHashFlags::ALL]);
        same!("BIP143 digest", hex(Sha256d::digest(p[1][0].ser()).as_slice()), "c37af31116d1b27caf68aae9e3ac82f1477929014d5b917657d0eb49478cb670".to_string());
        Ok(())
    });
}

//! C24 estimated size
use super::sig::*;
use super::util::*;
use crate::framework::*;
use crate::oracle::{hash::hash160, hex};
use crate::prng::Gen;
use crate::{ensure, same};
use bitcoin_cash::*;

enum Inp {
    Probe(Plan),
    Pkh([u8; 33], u8),
}
fn case(g: &mut Gen, c: &mut Case, ni: usize, no: usize) -> R {
    let mut s = gen_scene(g, ni, ni < 20);
    if ni >= 20 {
        for p in &mut s.plans {
            p.push_preimage = false;
            p.push_outputs = false;
        }
    }
    let kinds: Vec<Inp> = (0..ni)
        .map(|i| {
            if g.chance(1, 3) {
                let mut pk = [2u8; 33];
                pk[1..].copy_from_slice(&g.arr32());
                pk[0] = 2 + g.below(2) as u8;
                Inp::Pkh(pk, gen_flag(g))
            } else {
                Inp::Probe(s.plans[i].clone())
            }
        })
        .collect();
    let mut outs = gen_outs(g, no);
    for o in &mut outs {
        o.0 &= 0xffff;
    }
    let log = new_log();
    let rate = *g.pick(&[0u64, 1, 1000, 1001, 3000]);
    let mut b = TxBuilder::new_with_fee(s.version, s.lock_time, rate);
    let need: u64 = outs.iter().map(|o| o.0).sum();
    for i in 0..ni {
        s.values[i] = if i == 0 { need + (g.u64() >> (30 + g.below(34))) } else { 0 };
        match &kinds[i] {
            Inp::Probe(p) => {
                add(&mut b, &s.ins[i], s.values[i], p, &log);
            }
            Inp::Pkh(pk, f) => {
                let pubkey = Pubkey::new(*pk);
                let mut h = [0; 20];
                h.copy_from_slice(&hash160(pk));
                let a = Address::from_hash(Prefix::BitcoinCash, AddressType::P2PKH, Hash160::new(h));
                b.add_input(
                    UnsignedTxInput { prev_out: outpoint_of(&s.ins[i]), sequence: s.ins[i].seq, value: s.values[i] },
                    a.p2pkh_script().map_err(|e| e.to_string())?,
                    P2PKHSignatory { pubkey, sig_hash_flags: SigHashFlags::from_u8(*f) },
                );
            }
        }
    }
    let nl = if ni == 0 { 0 } else { g.below(4) };
    let mut li = vec![];
    for (k, o) in outs.iter().enumerate() {
        b.add_output(lib_out(o));
        if li.len() < nl && (g.chance(1, 2) || k + 1 == outs.len()) {
            let sc = gen_ops(g, 4, false);
            li.push(k);
            b.add_leftover_output_bounded(*g.pick(&[0, 546, 1 << 33]), *g.pick(&[1000, 1 << 20, u64::MAX]), g.below(3) as i32, Script::from_ops(sc));
        }
    }
    let exact = g.chance(1, 2);
    c.input(format!(
        "rate {} outs {} leftovers after {:?} exact {} kinds {} {}",
        rate,
        hex(&ser_outs(&outs)),
        li,
        exact,
        kinds.iter().map(|k| if let Inp::Pkh(..) = k { 'k' } else { 'p' }).collect::<String>(),
        s.show()
    ));
    if ni == 0 {
        c.trivial();
    }
    let mut u = match if ni == 0 { b.build_without_estimation() } else { b.build() } {
        Ok(u) => u,
        Err(e) => return Err(e.to_string()),
    };
    let est = u.estimated_size();
    let est_calls = drain(&log);
    for call in &est_calls {
        same!("size given while estimating", call.est, None);
        same!("lock script given while estimating", hex(&call.lock), hex(&s.plans[call.who].lock_bytes()));
        let empty: Vec<_> = s.plans[call.who].flags.iter().map(|_| s.plans[call.who].empty_preimage()).collect();
        same!("number of preimages while estimating", call.preimages.len(), empty.len());
        for (a, b) in call.preimages.iter().zip(&empty) {
            same!("size of a preimage while estimating", a.len(), b.len());
            same!("script code of a preimage while estimating", hex(&a[104..a.len() - 52]), hex(&b[104..b.len() - 52]));
        }
    }
    let order = {
        let mut o: Vec<usize> = (0..ni).collect();
        for i in (1..o.len()).rev() {
            o.swap(i, g.below(i + 1));
        }
        o
    };
    let mut calls = vec![];
    let mut all_equal = true;
    for i in order {
        match &kinds[i] {
            Inp::Probe(p) => {
                let sigs = p.gen_sigs(g, !exact);
                all_equal &= sigs.iter().zip(&p.sig_lens).all(|(s, n)| s.len() == *n);
                sign(&mut u, i, p, &log, &sigs, g.below(3)).map_err(|e| e.to_string())?;
                let mut cs = drain(&log);
                same!("signatory calls per signature", cs.len(), 1);
                calls.push((i, sigs, cs.pop().unwrap()));
            }
            Inp::Pkh(..) => {
                // a low-S signature and its hash type take up to 72 bytes, whatever the placeholder is
                let n = if exact { MAX_SIGNATURE_SIZE } else if g.chance(3, 4) { 72 } else { g.range(8, 72) };
                all_equal &= n == MAX_SIGNATURE_SIZE;
                u.sign_input(InputReference::<P2PKHSignatory>::new(i), ByteArray::new_unnamed(g.bytes(n))).map_err(|e| e.to_string())?;
            }
        }
        same!("estimate after signing", u.estimated_size(), est);
    }
    let t = u.complete_tx();
    let real: Vec<(u64, Vec<u8>)> = t.outputs.iter().map(|o| (o.value, script_bytes(&o.script))).collect();
    for (i, sigs, call) in &calls {
        s.check_call(call, *i, sigs, Some(est), &real)?;
    }
    let size = otx_of(&t).ser().len();
    same!("serialised size", t.ser().len(), size);
    c.saw(1 + calls.len() + est_calls.len());
    ensure!(est >= size, "estimated size {} is below the final size {} ({} inputs, {} outputs)", est, size, ni, real.len());
    if all_equal {
        same!("estimated size with signatures as long as their placeholders", est, size);
        c.class("all signatures at placeholder length");
    }
    if real.len() > outs.len() {
        let fee = s.values.iter().sum::<u64>() as u128 - real.iter().map(|o| o.0 as u128).sum::<u128>();
        ensure!(fee >= size as u128 * rate as u128 / 1000, "fee {} too small for {} bytes at {}", fee, size, rate);
    }
    c.class(format!("{} leftovers dropped", li.len() + outs.len() - real.len()));
    c.class_if(ni >= 253, "253+ inputs");
    c.class_if(real.len() >= 253, "253+ outputs");
    Ok(())
}
pub fn run(ctx: &mut Ctx) {
    ctx.rule("builders with P2PKH and recording signatories; the estimate is compared with the independently serialised final transaction, and every call of a signatory with the transaction's own data");
    ctx.phase("mixes", 8_000, 300_000, |g, c, _| {
        let ni = g.below(7);
        let no = g.range(1, 5);
        case(g, c, ni, no)
    });
    ctx.phase("count boundaries", 40, 2_000, |g, c, i| {
        let k = [251usize, 252, 253, 254, 256, 300, 520][if g.chance(1, 4) { 4 + g.below(3) } else { g.below(4) }];
        match i % 3 {
            0 => case(g, c, k, 2),
            1 => case(g, c, 2, k),
            _ => case(g, c, k, 251 + (i as usize / 3) % 3),
        }
    });
}

//! C08 builder: value conservation, fees, leftover rule
use super::sig::*;
use super::util::*;
use crate::framework::*;
use crate::oracle::hex;
use crate::oracle::script;
use crate::oracle::tx::OOut;
use crate::prng::Gen;
use crate::{ensure, same};
use bitcoin_cash::*;

#[derive(Clone, Debug)]
enum Out {
    Fixed(u64, Vec<u8>),
    Left { lower: u64, upper: u64, prec: i32, script: Vec<u8>, simple: bool },
}
struct Expect {
    values: Vec<Option<u64>>,
    size: usize,
}
fn outs_for(outs: &[Out], values: &[Option<u64>]) -> Vec<(u64, Vec<u8>)> {
    outs.iter()
        .zip(values)
        .filter_map(|(o, v)| match o {
            Out::Fixed(v, s) => Some((*v, s.clone())),
            Out::Left { script, .. } => v.map(|v| (v, script.clone())),
        })
        .collect()
}
/// the rule as documented: leftovers in order of precedence take what is left after the fee
fn model(s: &Scene, outs: &[Out], rate: u64) -> Result<Expect, u128> {
    model_with(s.values.iter().map(|v| *v as u128).sum(), &|o| s.estimate(o), outs, rate)
}
type Estimate<'a> = &'a dyn Fn(&[(u64, Vec<u8>)]) -> usize;
fn model_with(total: u128, estimate: Estimate, outs: &[Out], rate: u64) -> Result<Expect, u128> {
    let fixed: u128 = outs.iter().map(|o| if let Out::Fixed(v, _) = o { *v as u128 } else { 0 }).sum();
    if fixed > total {
        return Err(fixed - total);
    }
    let mut left = total - fixed;
    let mut values: Vec<Option<u64>> = vec![None; outs.len()];
    let mut order: Vec<(i32, usize)> = outs
        .iter()
        .enumerate()
        .filter_map(|(i, o)| if let Out::Left { prec, .. } = o { Some((*prec, i)) } else { None })
        .collect();
    order.sort();
    let mut size = None;
    for (_, i) in order {
        if let Out::Left { lower, upper, .. } = &outs[i] {
            values[i] = Some(0);
            let sz = estimate(&outs_for(outs, &values));
            let fee = sz as u128 * rate as u128 / 1000;
            let v = if fee <= left { (left - fee).min(*upper as u128) } else { 0 };
            if fee <= left && v > *lower as u128 {
                values[i] = Some(v as u64);
                left -= v;
                size = Some(sz);
            } else {
                values[i] = None;
            }
        }
    }
    let size = size.unwrap_or_else(|| estimate(&outs_for(outs, &values)));
    Ok(Expect { values, size })
}
fn gen_script_bytes(g: &mut Gen, many: bool) -> Vec<u8> {
    if many && g.chance(19, 20) {
        return vec![0x51];
    }
    let n = *g.pick(&[0usize, 1, 23, 25, 34, 75, 200, 251, 252, 253, 300]);
    let mut v = vec![];
    if n > 0 && g.chance(1, 2) {
        v = script::push_minimal(&g.bytes(n));
        v.truncate(v.len());
    } else {
        for _ in 0..n {
            v.push(*g.pick(&[0x51, 0x76, 0xac, 0x87, 0x61]));
        }
    }
    v
}
fn gen_outputs(g: &mut Gen, many: bool) -> Vec<Out> {
    let n = if many { if g.chance(1, 4) { 300 + g.below(300) } else { 250 + g.below(8) } } else { g.below(7) };
    let mut nl = 0;
    let precs: &[i32] = &[0, 0, 0, 1, 2, -1, i32::MIN, i32::MAX, 7];
    (0..n)
        .map(|_| {
            if nl < 5 && g.chance(if many { 1 } else { 25 }, 50) {
                nl += 1;
                let simple = g.chance(1, 4);
                let lower = if simple { 546 } else { *g.pick(&[0u64, 0, 1, 1, 10, 545, 546, 546, 1000, 5000, 100_000, u64::MAX]) };
                let upper = if simple { u64::MAX } else { *g.pick(&[0u64, 1, 2, 11, 546, 547, 1000, 1001, 10_000, 10_000, 1_000_000, 1_000_000, u64::MAX, u64::MAX - 1]) };
                Out::Left { lower, upper, prec: if simple { 0 } else { *g.pick(precs) }, script: gen_script_bytes(g, many), simple }
            } else {
                let v = if g.chance(1, 5) { 0 } else { g.u64() >> (24 + g.below(38)) };
                Out::Fixed(v, gen_script_bytes(g, many))
            }
        })
        .collect()
}
/// moves the inputs' total to just around one of the rule's decision points
fn tune(g: &mut Gen, s: &mut Scene, outs: &[Out], rate: u64) -> String {
    let (name, target) = target(g, &|o| s.estimate(o), outs, rate);
    let n = s.values.len();
    spread(g, &mut s.values, n, target);
    name
}
fn target(g: &mut Gen, estimate: Estimate, outs: &[Out], rate: u64) -> (String, u64) {
    let fixed: u64 = outs.iter().map(|o| if let Out::Fixed(v, _) = o { *v } else { 0 }).sum();
    let mut marks: Vec<(String, u64)> = vec![("zero".into(), 0)];
    let none: Vec<Option<u64>> = outs.iter().map(|_| None).collect();
    marks.push(("fee of nothing".into(), (estimate(&outs_for(outs, &none)) as u128 * rate as u128 / 1000) as u64));
    let mut with = none.clone();
    let mut order: Vec<(i32, usize)> =
        outs.iter().enumerate().filter_map(|(i, o)| if let Out::Left { prec, .. } = o { Some((*prec, i)) } else { None }).collect();
    order.sort();
    let mut taken = 0u64;
    for (_, i) in order {
        if let Out::Left { lower, upper, .. } = &outs[i] {
            with[i] = Some(0);
            let f = (estimate(&outs_for(outs, &with)) as u128 * rate as u128 / 1000) as u64;
            marks.push(("fee".into(), taken.saturating_add(f)));
            if *lower < u64::MAX {
                marks.push(("fee + lower".into(), taken.saturating_add(f).saturating_add(*lower)));
                marks.push(("lower".into(), taken.saturating_add(*lower)));
            }
            if *upper < 1 << 50 {
                marks.push(("fee + upper".into(), taken.saturating_add(f).saturating_add(*upper)));
                if g.chance(2, 3) && *upper > *lower {
                    taken += *upper;
                } else {
                    with[i] = None;
                }
            }
        }
    }
    let k = g.below(marks.len()).max(g.below(marks.len()));
    let (name, m) = marks[k].clone();
    let delta = g.below(7) as i64 - 3;
    if g.chance(1, 8) {
        // random totals, sometimes insufficient
        return ("random".into(), if g.chance(1, 2) { fixed / 2 } else { fixed.saturating_add(g.u64() >> (24 + g.below(36))) });
    }
    (format!("{} {:+}", name, delta), (fixed as i128 + m as i128 + delta as i128).max(0).min(1 << 60) as u64)
}
fn spread(g: &mut Gen, v: &mut [u64], n: usize, mut t: u64) {
    for x in v.iter_mut().take(n) {
        *x = 0;
    }
    if n == 0 {
        return;
    }
    for x in v.iter_mut().take(n - 1) {
        let p = if g.chance(1, 3) { 0 } else { ((t as u128 * g.below(1000) as u128) / 1000) as u64 };
        *x = p;
        t -= p;
    }
    v[n - 1] = t;
}
fn sign_all(u: &mut UnsignedTx<'static>, s: &Scene, log: &Log) -> R {
    for i in 0..s.plans.len() {
        sign(u, i, &s.plans[i], log, &s.plans[i].placeholders(), i % 3).map_err(|e| e.to_string())?;
    }
    Ok(())
}
/// amounts and fee rates whose sums and products are beyond 64 bits
fn huge(g: &mut Gen, s: &mut Scene, outs: &mut [Out], rate: &mut u64) -> String {
    *rate = *g.pick(&[0, 1000, 1 << 32, 1 << 53, 1 << 56, 1 << 60, u64::MAX / 200, u64::MAX / 1000, u64::MAX - 1, u64::MAX]);
    for o in outs.iter_mut() {
        match o {
            Out::Fixed(v, _) if g.chance(1, 2) => *v = *g.pick(&[1 << 62, 1 << 63, u64::MAX - 1, u64::MAX, u64::MAX / 2]),
            Out::Left { lower, upper, simple: false, .. } if g.chance(1, 3) => {
                *lower = *g.pick(&[0, 1 << 62, u64::MAX - 1]);
                *upper = *g.pick(&[u64::MAX, u64::MAX - 1, 1 << 63]);
            }
            _ => (),
        }
    }
    let fixed: u128 = outs.iter().map(|o| if let Out::Fixed(v, _) = o { *v as u128 } else { 0 }).sum();
    let all: Vec<Option<u64>> = outs.iter().map(|o| if let Out::Left { .. } = o { Some(0) } else { None }).collect();
    let fee = s.estimate(&outs_for(outs, &all)) as u128 * *rate as u128 / 1000;
    let (what, mut t) = match g.below(6) {
        0 => ("some", g.u64() as u128),
        1 => ("fixed", fixed),
        2 => ("fixed modulo 2^64", fixed % (1 << 64)),
        3 => ("fixed + fee", fixed + fee),
        4 => ("fixed + fee modulo 2^64", fixed + fee % (1 << 64)),
        _ => ("all", u128::MAX),
    };
    t = t.saturating_add(1000 * g.below(3) as u128).saturating_add(g.below(5) as u128).saturating_sub(2);
    for v in s.values.iter_mut() {
        *v = t.min(u64::MAX as u128) as u64;
        t -= *v as u128;
    }
    s.values.reverse();
    format!("{} beyond-u64", what)
}
fn one(g: &mut Gen, c: &mut Case, many: bool, beyond: bool) -> R {
    let ni = if many && g.chance(1, 2) { if g.chance(1, 4) { 300 + g.below(300) } else { 250 + g.below(8) } } else { g.below(5) };
    let mut s = gen_scene(g, ni, !many);
    if many {
        for p in &mut s.plans {
            p.push_outputs = false;
            p.push_preimage = false;
        }
    }
    if g.chance(1, 3) {
        // an unlocking script whose size depends on the outputs
        if let Some(p) = s.plans.first_mut() {
            p.push_outputs = true;
        }
    }
    let mut outs = gen_outputs(g, many);
    let mut rate = *g.pick(&[0u64, 1, 3, 10, 500, 999, 1000, 1001, 1337, 2000, 5000, 100_000, 1_000_000]);
    let mark = if beyond { huge(g, &mut s, &mut outs, &mut rate) } else { tune(g, &mut s, &outs, rate) };
    c.input(format!("rate {} outs {:?} {}", rate, outs, s.show()));
    if !outs.iter().any(|o| matches!(o, Out::Left { .. })) && ni == 0 {
        c.trivial();
    }
    c.class(format!("total at {}", mark.split(' ').next().unwrap()));
    let log = new_log();
    let mut b = if rate == 1000 && g.chance(1, 2) {
        let mut b = TxBuilder::new(s.version, s.lock_time);
        for i in 0..ni {
            add(&mut b, &s.ins[i], s.values[i], &s.plans[i], &log);
        }
        b
    } else if g.chance(1, 3) {
        let mut b = s.builder(77, &log);
        b.set_fee_per_kb(rate);
        b
    } else {
        s.builder(rate, &log)
    };
    add_outs(g, &mut b, &outs);
    c.saw(1);
    same!("version", b.version(), s.version);
    same!("lock time", b.lock_time(), s.lock_time);
    let (sum_in, sum_out) = (
        s.values.iter().map(|v| *v as u128).sum::<u128>(),
        outs.iter().map(|o| if let Out::Fixed(v, _) = o { *v as u128 } else { 0 }).sum::<u128>(),
    );
    c.class_if(sum_in > u64::MAX as u128, "inputs beyond u64");
    c.class_if(sum_out > u64::MAX as u128, "fixed outputs beyond u64");
    if sum_in <= u64::MAX as u128 {
        same!("input sum", b.input_sum() as u128, sum_in);
    }
    if sum_out <= u64::MAX as u128 {
        same!("known output sum", b.known_output_sum() as u128, sum_out);
    }
    let want = model(&s, &outs, rate);
    let got = b.build();
    let w = match (got, want) {
        (Err(e), Err(short)) => {
            c.class("insufficient inputs");
            return match e {
                error::Error::InsufficientInputAmount { amount } => {
                    // as exact as the type of the error can say
                    same!("shortfall", amount as u128, short.min(u64::MAX as u128));
                    Ok(())
                }
                e => Err(format!("insufficient inputs reported as {}", e)),
            };
        }
        (Err(e), Ok(_)) => return Err(format!("inputs suffice but build fails: {}", e)),
        (Ok(_), Err(short)) => return Err(format!("inputs are {} short but build succeeds", short)),
        (Ok(mut u), Ok(w)) => {
            same!("estimated size", u.estimated_size(), w.size);
            sign_all(&mut u, &s, &log)?;
            (u.complete_tx(), w)
        }
    };
    let (tx, w) = w;
    let total: u128 = s.values.iter().map(|v| *v as u128).sum();
    compare(c, &tx, &outs, &w, total, rate)
}
fn compare(c: &mut Case, tx: &UnhashedTx, outs: &[Out], w: &Expect, total: u128, rate: u64) -> R {
    let got: Vec<(u64, Vec<u8>)> = tx.outputs.iter().map(|o| (o.value, script_bytes(&o.script))).collect();
    let want_outs = outs_for(outs, &w.values);
    // invariants first: they do not depend on the model's order of decisions
    let paid: u128 = got.iter().map(|o| o.0 as u128).sum();
    ensure!(paid <= total, "pays out {} of {} input", paid, total);
    let mut it = got.iter();
    for o in outs {
        if let Out::Fixed(v, sc) = o {
            ensure!(it.any(|x| x.0 == *v && &x.1 == sc), "fixed output {} {} missing or out of order in {:?}", v, hex(sc), got);
        }
    }
    let present = w.values.iter().filter(|v| v.is_some()).count();
    if got != want_outs {
        return Err(format!("outputs {:?}, the rule gives {:?} (total {} rate {})", got, want_outs, total, rate));
    }
    for (o, v) in outs.iter().zip(&w.values) {
        if let (Out::Left { lower, upper, .. }, Some(v)) = (o, v) {
            ensure!(v > lower && v <= upper, "leftover value {} outside ({}, {}]", v, lower, upper);
        }
    }
    if present > 0 {
        let fee = total - paid;
        ensure!(fee >= w.size as u128 * rate as u128 / 1000, "fee {} below rate {} for size {}", fee, rate, w.size);
    }
    c.class(format!("{} leftover outputs kept", present));
    let dropped = outs.iter().filter(|o| matches!(o, Out::Left { .. })).count() - present;
    c.class_if(dropped > 0, "leftover output dropped");
    c.class_if(present > 0 && dropped > 0, "some kept, some dropped");
    Ok(())
}
fn add_outs(g: &mut Gen, b: &mut TxBuilder<'static>, outs: &[Out]) {
    let mut pending = vec![];
    for o in outs {
        match o {
            Out::Fixed(v, sc) => {
                let t = lib_out(&(*v, sc.clone()));
                if g.chance(1, 3) {
                    pending.push(t);
                } else {
                    b.add_outputs(pending.drain(..));
                    b.add_output(t);
                }
            }
            Out::Left { lower, upper, prec, script, simple } => {
                b.add_outputs(pending.drain(..));
                let sc = Script::from_ops(ops_of(script));
                if *simple {
                    b.add_leftover_output(sc);
                } else {
                    b.add_leftover_output_bounded(*lower, *upper, *prec, sc);
                }
            }
        }
    }
    b.add_outputs(pending.drain(..));
}
/// a builder made of an existing transaction, to which inputs and outputs are added
fn continued(g: &mut Gen, c: &mut Case) -> R {
    let mut o = gen_otx(g, false, false);
    let extra = g.below(3);
    let mut s = gen_scene(g, extra, false);
    let mut outs: Vec<Out> = o.outs.iter_mut().map(|x| { x.value >>= 20; Out::Fixed(x.value, x.script.clone()) }).collect();
    let old = outs.len();
    let mut more = gen_outputs(g, false);
    outs.append(&mut more);
    let rate = *g.pick(&[1000u64, 1000, 0, 1, 1337, 5000]);
    let known = g.below(o.ins.len() + 1);
    let base = o.clone();
    let (plans, ins) = (s.plans.clone(), s.ins.clone());
    let estimate = |outs: &[(u64, Vec<u8>)]| {
        let mut t = base.clone();
        for (i, p) in ins.iter().zip(&plans) {
            let mut i = i.clone();
            i.script = p.unlock_bytes(&p.placeholders(), &vec![p.empty_preimage(); p.flags.len()], outs);
            t.ins.push(i);
        }
        t.outs = outs.iter().map(|x| OOut { value: x.0, script: x.1.clone() }).collect();
        t.ser().len()
    };
    let (mark, total) = target(g, &estimate, &outs, rate);
    // the first inputs have a known value, in no particular place
    let mut which: Vec<usize> = (0..o.ins.len()).collect();
    for i in (1..which.len()).rev() {
        which.swap(i, g.below(i + 1));
    }
    which.truncate(known);
    let n = known + extra;
    let mut values = vec![0u64; n];
    spread(g, &mut values, n, total);
    let total: u128 = values.iter().map(|v| *v as u128).sum();
    let mut t = lib_tx(&o);
    for i in t.inputs.iter_mut() {
        if g.chance(1, 2) {
            i.lock_script = Some(Script::from_ops(gen_ops(g, 4, false)));
            i.is_p2sh = if g.chance(1, 2) { Some(g.chance(1, 2)) } else { None };
        }
        if g.chance(1, 2) {
            let k = g.below(3);
            i.sig_hash_flags = Some(vec![SigHashFlags::DEFAULT; k]);
        }
    }
    for (k, i) in which.iter().enumerate() {
        t.inputs[*i].value = Some(values[k]);
    }
    s.values = values[known..].to_vec();
    c.input(format!("continue {} known {:?} rate {} values {:?} outs {:?} {}", show_tx(&o), which, rate, values, outs, s.show()));
    c.class(format!("continued, total at {}", mark.split(' ').next().unwrap()));
    let log = new_log();
    let mut b = TxBuilder::from_tx(t);
    if rate != 1000 {
        b.set_fee_per_kb(rate);
    }
    let first = o.ins.len();
    for i in 0..extra {
        let at = add(&mut b, &s.ins[i], s.values[i], &s.plans[i], &log);
        same!("index of an added input", at, first + i);
    }
    add_outs(g, &mut b, &outs[old..]);
    c.saw(1);
    same!("input sum", b.input_sum() as u128, total);
    let want = model_with(total, &estimate, &outs, rate);
    let (mut u, w) = match (b.build(), want) {
        (Err(error::Error::InsufficientInputAmount { amount }), Err(short)) => {
            c.class("insufficient inputs");
            same!("shortfall", amount as u128, short);
            return Ok(());
        }
        (Err(e), Err(_)) => return Err(format!("insufficient inputs reported as {}", e)),
        (Err(e), Ok(_)) => return Err(format!("inputs suffice but build fails: {}", e)),
        (Ok(_), Err(short)) => return Err(format!("inputs are {} short but build succeeds", short)),
        (Ok(u), Ok(w)) => (u, w),
    };
    same!("estimated size", u.estimated_size(), w.size);
    for i in 0..extra {
        sign(&mut u, first + i, &s.plans[i], &log, &s.plans[i].placeholders(), i % 3).map_err(|e| e.to_string())?;
    }
    // (inputs without a script have yet to be signed)
    let tx = if o.ins.iter().any(|i| i.script.is_empty()) { u.partial_tx() } else { u.complete_tx() };
    for (k, i) in which.iter().enumerate() {
        same!("value of a continued input", tx.inputs[*i].value, Some(values[k]));
    }
    compare(c, &tx, &outs, &w, total, rate)
}
pub fn run(ctx: &mut Ctx) {
    ctx.rule("random builders with totals placed within 3 satoshi of every decision point of the rule (zero, fee, lower bound, upper bound); outputs, estimated size and errors are compared with an independent 128-bit model and the conservation, bound and fee invariants are checked separately");
    ctx.phase("builders", 5_000, 500_000, |g, c, _| one(g, c, false, false));
    ctx.phase("many inputs and outputs", 30, 3_000, |g, c, _| one(g, c, true, false));
    ctx.phase("amounts and fees beyond 64 bits", 3_000, 200_000, |g, c, _| one(g, c, false, true));
    ctx.phase("continued transactions", 2_000, 100_000, |g, c, _| continued(g, c));
    ctx.phase("build without estimation", 2_000, 40_000, |g, c, _| {
        let ni = g.below(4);
        let s = gen_scene(g, ni, false);
        let n = g.below(5);
        let outs = gen_outs(g, n);
        let leftover = g.chance(1, 4);
        c.input(format!("{:?} {} {}", outs, leftover, s.show()));
        let log = new_log();
        let mut b = s.builder(1000, &log);
        let at = g.below(n + 1);
        for (i, o) in outs.iter().enumerate() {
            if leftover && i == at {
                b.add_leftover_output(Script::from_ops(vec![]));
            }
            b.add_output(lib_out(o));
        }
        if leftover && at == n {
            b.add_leftover_output(Script::from_ops(vec![]));
        }
        c.saw(1);
        match b.build_without_estimation() {
            Err(_) => {
                ensure!(leftover, "no leftover output but building fails");
                c.class("leftover refused");
                Ok(())
            }
            Ok(mut u) => {
                ensure!(!leftover, "a leftover output has no value here but building succeeds");
                sign_all(&mut u, &s, &log)?;
                let t = u.complete_tx();
                let got: Vec<(u64, Vec<u8>)> = t.outputs.iter().map(|o| (o.value, script_bytes(&o.script))).collect();
                ensure!(got == outs, "outputs changed");
                Ok(())
            }
        }
    });
}

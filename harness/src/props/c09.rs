//! C09 signing histories
use super::sig::*;
use super::util::*;
use crate::framework::*;
use crate::oracle::hex;
use crate::prng::Gen;
use crate::{ensure, same};
use bitcoin_cash::*;

#[derive(Clone)]
enum St {
    Unsigned,
    Signed(Vec<u8>),
}
struct Model {
    s: Scene,
    outs: Vec<(u64, Vec<u8>)>,
    st: Vec<St>,
    rebuilt: bool,
}
impl Model {
    fn check_input(&self, i: usize, t: &TxInput, annotated: bool) -> R {
        let w = &self.s.ins[i];
        same!(format!("outpoint of input {}", i), (hex(t.prev_out.tx_hash.as_slice()), t.prev_out.vout), (hex(&w.txid), w.vout));
        same!(format!("sequence of input {}", i), t.sequence, w.seq);
        let script = match &self.st[i] {
            St::Unsigned => vec![],
            St::Signed(b) => b.clone(),
        };
        same!(format!("unlocking script of input {}", i), hex(&script_bytes(&t.script)), hex(&script));
        if annotated {
            let p = &self.s.plans[i];
            same!(format!("value of input {}", i), t.value, Some(self.s.values[i]));
            same!(format!("lock script of input {}", i), t.lock_script.as_ref().map(|s| hex(&script_bytes(s))), Some(hex(&p.lock_bytes())));
            same!(format!("P2SH mark of input {}", i), t.is_p2sh, Some(p.p2sh));
            same!(
                format!("hash types of input {}", i),
                t.sig_hash_flags.as_ref().map(|f| f.iter().map(|x| x.bits()).collect::<Vec<_>>()),
                Some(p.flags.iter().map(|x| *x as u32).collect::<Vec<_>>())
            );
        }
        Ok(())
    }
    fn check_tx(&self, t: &UnhashedTx) -> R {
        same!("version", t.version, self.s.version);
        same!("lock time", t.lock_time, self.s.lock_time);
        let got: Vec<(u64, Vec<u8>)> = t.outputs.iter().map(|o| (o.value, script_bytes(&o.script))).collect();
        ensure!(got == self.outs, "outputs {:?}, expected {:?}", got, self.outs);
        same!("number of inputs", t.inputs.len(), self.s.ins.len());
        for i in 0..t.inputs.len() {
            self.check_input(i, &t.inputs[i], true)?;
        }
        Ok(())
    }
    fn open(&self) -> Vec<usize> {
        (0..self.st.len()).filter(|i| matches!(self.st[*i], St::Unsigned)).collect()
    }
}
fn history(g: &mut Gen, c: &mut Case, ni: usize) -> R {
    let mut s = gen_scene(g, ni, false);
    for p in &mut s.plans {
        // an empty unlocking script cannot be told from an unsigned input when rebuilding
        if p.sig_lens.is_empty() && p.extra.is_empty() && !p.p2sh {
            p.extra = vec![Op::Code(Opcode::OP_NOP)];
        }
    }
    let n = g.below(4);
    let mut outs = gen_outs(g, n);
    let need: u64 = outs.iter().map(|o| o.0).sum();
    s.values[0] += need;
    let log = new_log();
    let mut b = s.builder(g.below(3000) as u64, &log);
    for o in &outs {
        b.add_output(lib_out(o));
    }
    let leftover = g.chance(1, 3);
    let lsc = vec![0x51, 0x87];
    if leftover {
        b.add_leftover_output(Script::from_ops(ops_of(&lsc)));
    }
    let mut u = if !leftover && g.chance(1, 3) { b.build_without_estimation() } else { b.build() }.map_err(|e| e.to_string())?;
    let mut script = format!("{} leftover {} outs {}: ", s.show(), leftover, hex(&ser_outs(&outs)));
    c.input(script.clone());
    let mut outs_known = !leftover;
    let mut m = Model { st: vec![St::Unsigned; ni], outs: outs.clone(), rebuilt: false, s };
    drain(&log);
    let steps = g.range(1, 3 * ni + 6);
    for _ in 0..steps {
        let open = m.open();
        let act = g.below(20);
        let est = u.estimated_size();
        if act < 11 && !open.is_empty() {
            let i = *g.pick(&open);
            let p = m.s.plans[i].clone();
            let sigs = p.gen_sigs(g, true);
            let how = if m.rebuilt { 2 } else { g.below(3) };
            script.push_str(&format!("sign({},{}) ", i, how));
            c.input(script.clone());
            c.class(format!("sign via call {}{}", how, if m.rebuilt { " after rebuild" } else { "" }));
            sign(&mut u, i, &p, &log, &sigs, how).map_err(|e| format!("signing input {} fails: {}", i, e))?;
            c.saw(1);
            let mut calls = drain(&log);
            same!("signatory calls for one signature", calls.len(), 1);
            let call = calls.pop().unwrap();
            if !outs_known {
                // the leftover's value is C08's business; everything else is fixed
                ensure!(call.outputs.len() <= outs.len() + 1 && call.outputs.starts_with(&outs), "outputs given to the signatory");
                m.outs = call.outputs.clone();
                outs = m.outs.clone();
                outs_known = true;
            }
            m.s.check_call(&call, i, &sigs, Some(est), &outs)?;
            m.st[i] = St::Signed(p.unlock_bytes(&sigs, &call.preimages, &outs));
        } else if act < 15 && open.len() < ni {
            let i = loop {
                let i = g.below(ni);
                if let St::Signed(_) = m.st[i] {
                    break i;
                }
            };
            let p = m.s.plans[i].clone();
            let sigs = p.gen_sigs(g, true);
            let how = g.below(3);
            script.push_str(&format!("again({},{}) ", i, how));
            c.input(script.clone());
            c.class(format!("second signature via call {}{}", how, if m.rebuilt { " after rebuild" } else { "" }));
            c.saw(1);
            match sign(&mut u, i, &p, &log, &sigs, how) {
                Err(error::Error::InputAlreadySigned { input_idx }) => same!("input named in the error", input_idx, i),
                Err(e) => return Err(format!("second signature of input {} refused with {}", i, e)),
                Ok(()) => return Err(format!("input {} accepts a second signature", i)),
            }
            drain(&log);
        } else if act == 15 || act == 16 {
            script.push_str("partial+rebuild ");
            c.input(script.clone());
            let t = u.partial_tx();
            if !outs_known {
                m.outs = t.outputs.iter().map(|o| (o.value, script_bytes(&o.script))).collect();
                ensure!(m.outs.len() <= outs.len() + 1 && m.outs.starts_with(&outs), "outputs");
                outs = m.outs.clone();
                outs_known = true;
            }
            m.check_tx(&t)?;
            c.saw(1);
            c.class(if m.open().is_empty() { "rebuild when complete" } else { "rebuild when partly signed" });
            let b = TxBuilder::from_tx(t);
            same!("version of the rebuilt builder", b.version(), m.s.version);
            same!("lock time of the rebuilt builder", b.lock_time(), m.s.lock_time);
            same!("input sum of the rebuilt builder", b.input_sum(), m.s.values.iter().sum::<u64>());
            same!("output sum of the rebuilt builder", b.known_output_sum(), m.outs.iter().map(|o| o.0).sum::<u64>());
            let ok = m.s.values.iter().sum::<u64>() >= m.outs.iter().map(|o| o.0).sum::<u64>();
            u = if !ok || g.chance(1, 2) { b.build_without_estimation() } else { b.build() }.map_err(|e| e.to_string())?;
            m.rebuilt = true;
        } else if act == 17 {
            script.push_str("into_tx_builder ");
            c.input(script.clone());
            if !outs_known || m.rebuilt {
                continue;
            }
            // back to the builder: nothing is signed any more, everything else stays
            c.class("back to builder");
            c.saw(1);
            u = u.into_tx_builder().build().or_else(|e| Err(e.to_string()))?;
            for s in &mut m.st {
                *s = St::Unsigned;
            }
            drain(&log);
        } else if act == 18 {
            // preimages do not depend on what is signed already
            if outs_known {
                let t = m.s.otx(&m.outs);
                for (i, v) in u.preimages().iter().enumerate() {
                    let want = m.s.plans[i].preimages(&t, i, m.s.values[i]);
                    ensure!(v.iter().map(|p| p.ser().to_vec()).collect::<Vec<_>>() == want, "preimages of input {} after {}", i, script);
                }
                c.saw(1);
            }
        } else if act == 19 && !open.is_empty() && !m.rebuilt && g.chance(1, 4) {
            script.push_str("complete(incomplete) ");
            c.input(script.clone());
            c.class("completing an incomplete transaction");
            c.saw(1);
            ensure!(panics(move || drop(u.complete_tx())), "an incomplete transaction was completed: {}", script);
            return Ok(());
        }
    }
    script.push_str("end");
    c.input(script.clone());
    let done = m.open().is_empty();
    let t = if done && g.chance(2, 3) { u.complete_tx() } else { u.partial_tx() };
    c.class(if done { "complete at end" } else { "partial at end" });
    c.saw(1);
    if !outs_known {
        let got: Vec<(u64, Vec<u8>)> = t.outputs.iter().map(|o| (o.value, script_bytes(&o.script))).collect();
        ensure!(got.len() <= outs.len() + 1 && got.starts_with(&outs), "outputs");
        m.outs = got;
    }
    m.check_tx(&t)
}
pub fn run(ctx: &mut Ctx) {
    ctx.rule("random histories of sign, sign again, export, rebuild, return to builder and complete; every signatory call and every exported transaction is compared with a model of what each input must contain");
    ctx.phase("histories", 12_000, 400_000, |g, c, _| {
        let ni = g.range(1, 6);
        history(g, c, ni)
    });
    // every order of signing four inputs by every call, with a second attempt after each
    ctx.exhaustive("all orders of four inputs", 24 * 81, |g, c, i| {
        let s = gen_scene(g, 4, false);
        let mut order: Vec<usize> = vec![0, 1, 2, 3];
        let mut k = i % 24;
        let mut perm = vec![];
        for n in (1..=4).rev() {
            perm.push(order.remove((k % n) as usize));
            k /= n;
        }
        let mut hows = i / 24;
        c.input(format!("order {:?} calls {} {}", perm, hows, s.show()));
        let log = new_log();
        let outs = vec![(5u64, vec![0x51u8])];
        let mut b = s.builder(1000, &log);
        b.add_output(lib_out(&outs[0]));
        let mut u = b.build_without_estimation().map_err(|e| e.to_string())?;
        let est = u.estimated_size();
        let mut m = Model { st: vec![St::Unsigned; 4], outs: outs.clone(), rebuilt: false, s };
        drain(&log);
        for idx in perm {
            let how = (hows % 3) as usize;
            hows /= 3;
            let p = m.s.plans[idx].clone();
            let sigs = p.gen_sigs(g, true);
            sign(&mut u, idx, &p, &log, &sigs, how).map_err(|e| e.to_string())?;
            let call = drain(&log).pop().ok_or("signatory not called")?;
            m.s.check_call(&call, idx, &sigs, Some(est), &outs)?;
            m.st[idx] = St::Signed(p.unlock_bytes(&sigs, &call.preimages, &outs));
            let again = p.gen_sigs(g, true);
            let how2 = g.below(3);
            ensure!(sign(&mut u, idx, &p, &log, &again, how2).is_err(), "input {} accepts a second signature", idx);
            drain(&log);
            c.saw(2);
        }
        m.check_tx(&u.complete_tx())
    });
    // more inputs than 8 bits can count, signed in any order, exported and rebuilt half-way
    ctx.phase("many inputs", 6, 60, |g, c, i| {
        let ni = [255usize, 256, 257, 300, 513, 600][i as usize % 6];
        let mut s = gen_scene(g, ni, false);
        for p in &mut s.plans {
            if p.sig_lens.is_empty() && p.extra.is_empty() && !p.p2sh {
                p.extra = vec![Op::Code(Opcode::OP_NOP)];
            }
        }
        let mut perm: Vec<usize> = (0..ni).collect();
        for k in (1..ni).rev() {
            perm.swap(k, g.below(k + 1));
        }
        c.input(format!("{} inputs, order {:?}, {}", ni, perm, clip(&s.show(), 3000)));
        let log = new_log();
        let outs = gen_outs(g, 260);
        let need: u64 = outs.iter().map(|o| o.0).sum();
        s.values[0] += need;
        let mut b = s.builder(1000, &log);
        for o in &outs {
            b.add_output(lib_out(o));
        }
        let mut u = b.build_without_estimation().map_err(|e| e.to_string())?;
        let mut m = Model { st: vec![St::Unsigned; ni], outs: outs.clone(), rebuilt: false, s };
        drain(&log);
        let est = u.estimated_size();
        let otx = m.s.otx(&outs);
        for (n, idx) in perm.iter().cloned().enumerate() {
            let p = m.s.plans[idx].clone();
            let sigs = p.gen_sigs(g, true);
            let how = if m.rebuilt { 2 } else { g.below(3) };
            sign(&mut u, idx, &p, &log, &sigs, how).map_err(|e| format!("signing input {} fails: {}", idx, e))?;
            let call = drain(&log).pop().ok_or("signatory not called")?;
            if !m.rebuilt {
                ensure!(call.est == Some(est) || call.est.is_none(), "estimate given to the signatory");
            }
            let pre: Vec<Vec<u8>> = p.preimages(&otx, idx, m.s.values[idx]);
            ensure!(call.preimages == pre, "preimages given to the signatory of input {} of {}", idx, ni);
            m.st[idx] = St::Signed(p.unlock_bytes(&sigs, &call.preimages, &outs));
            if n % 16 == 0 {
                let again = p.gen_sigs(g, true);
                match sign(&mut u, idx, &p, &log, &again, 2) {
                    Err(error::Error::InputAlreadySigned { input_idx }) => same!("input named in the error", input_idx, idx),
                    r => return Err(format!("second signature of input {}: {:?}", idx, r.err().map(|e| e.to_string()))),
                }
                drain(&log);
            }
            if n == ni / 2 {
                let t = u.partial_tx();
                m.check_tx(&t)?;
                u = TxBuilder::from_tx(t).build_without_estimation().map_err(|e| e.to_string())?;
                m.rebuilt = true;
            }
        }
        c.saw(ni);
        c.class(format!("{} inputs", ni));
        m.check_tx(&u.complete_tx())
    });
    ctx.phase("rebuilding plain transactions", 3_000, 60_000, |g, c, _| {
        // as decoded from the wire: no values, lock scripts or hash types
        let o = gen_otx(g, false, false);
        c.input(show_tx(&o));
        if o.ins.is_empty() {
            c.trivial();
        }
        let t = lib_tx(&o);
        let u = TxBuilder::from_tx(t.clone()).build_without_estimation().map_err(|e| e.to_string())?;
        same!("estimated size of a finished transaction", u.estimated_size(), o.ser().len());
        let mut u = u;
        let log = new_log();
        for i in 0..o.ins.len().min(5) {
            if !o.ins[i].script.is_empty() {
                let p = gen_plan(g, 0, false);
                let sigs = p.gen_sigs(g, false);
                let how = g.below(3);
                ensure!(sign(&mut u, i, &p, &log, &sigs, how).is_err(), "input {} with an unlocking script accepts another", i);
                c.saw(1);
            }
        }
        let all = o.ins.iter().all(|i| !i.script.is_empty());
        c.class(if all { "complete" } else { "partial" });
        let r = if all { u.complete_tx() } else { u.partial_tx() };
        c.saw(1);
        same!("rebuilt transaction", hex(&otx_of(&r).ser()), hex(&o.ser()));
        Ok(())
    });
}

//! Signatories that record what the library hands them, and the harness's own model of what they build.
use super::util::*;
use crate::oracle::script;
use crate::oracle::tx::*;
use crate::oracle::{compact, hex};
use crate::prng::Gen;
use crate::{ensure, same};
use bitcoin_cash::*;
use std::borrow::Cow;
use std::sync::{Arc, Mutex};

pub struct Call {
    pub who: usize,
    pub preimages: Vec<Vec<u8>>,
    pub est: Option<usize>,
    pub sigs: Vec<Vec<u8>>,
    pub lock: Vec<u8>,
    pub outputs: Vec<(u64, Vec<u8>)>,
}
pub type Log = Arc<Mutex<Vec<Call>>>;
pub fn new_log() -> Log {
    Arc::new(Mutex::new(vec![]))
}
pub fn drain(l: &Log) -> Vec<Call> {
    l.lock().unwrap().drain(..).collect()
}
#[derive(Clone, Debug)]
pub struct Plan {
    pub who: usize,
    pub one: bool,
    pub p2sh: bool,
    pub flags: Vec<u8>,
    pub sig_lens: Vec<usize>,
    pub extra: Vec<Op>,
    pub push_preimage: bool,
    pub push_outputs: bool,
    pub lock: Vec<Op>,
}
pub struct Built(Vec<TaggedOp>);
impl Ops for Built {
    fn ops(&self) -> Cow<[TaggedOp]> {
        (&self.0[..]).into()
    }
}
pub struct Probe1 {
    pub plan: Plan,
    pub log: Log,
}
pub struct ProbeN {
    pub plan: Plan,
    pub log: Log,
}
fn record(p: &Plan, log: &Log, pre: &[TxPreimage], est: Option<usize>, sigs: Vec<Vec<u8>>, lock: &Script, outs: &[TxOutput]) -> Built {
    let pre: Vec<Vec<u8>> = pre.iter().map(|p| p.ser().to_vec()).collect();
    let outputs: Vec<(u64, Vec<u8>)> = outs.iter().map(|o| (o.value, script_bytes(&o.script))).collect();
    let ops = p.unlock_ops(&sigs, &pre, &outputs).into_iter().map(TaggedOp::from_op).collect();
    log.lock().unwrap().push(Call { who: p.who, preimages: pre, est, sigs, lock: script_bytes(lock), outputs });
    Built(ops)
}
impl Plan {
    /// the operations the signatory returns (without the redeem script)
    pub fn unlock_ops(&self, sigs: &[Vec<u8>], pre: &[Vec<u8>], outputs: &[(u64, Vec<u8>)]) -> Vec<Op> {
        let push = |d: &[u8]| Op::PushByteArray { array: d.to_vec().into(), is_minimal: true };
        let mut ops: Vec<Op> = sigs.iter().map(|s| push(s)).collect();
        ops.extend(self.extra.iter().cloned());
        if self.push_preimage {
            ops.extend(pre.iter().map(|p| push(p)));
        }
        if self.push_outputs {
            ops.push(push(&ser_outs(outputs)));
        }
        ops
    }
    /// bytes of the complete unlocking script
    pub fn unlock_bytes(&self, sigs: &[Vec<u8>], pre: &[Vec<u8>], outputs: &[(u64, Vec<u8>)]) -> Vec<u8> {
        let mut b: Vec<u8> = self.unlock_ops(sigs, pre, outputs).iter().flat_map(op_bytes).collect();
        if self.p2sh {
            b.extend(script::push_minimal(&self.lock_bytes()));
        }
        b
    }
    pub fn lock_bytes(&self) -> Vec<u8> {
        self.lock.iter().flat_map(op_bytes).collect()
    }
    pub fn code_bytes(&self) -> Vec<u8> {
        script_code(&self.lock, 0).unwrap_or_else(|| self.lock_bytes())
    }
    pub fn placeholders(&self) -> Vec<Vec<u8>> {
        self.sig_lens.iter().map(|n| vec![0; *n]).collect()
    }
    /// a preimage as the estimation passes it: everything zero, script code present
    pub fn empty_preimage(&self) -> Vec<u8> {
        let mut v = vec![0; 4 + 32 + 32 + 36];
        let c = self.code_bytes();
        v.extend(compact(c.len() as u64));
        v.extend(c);
        v.extend(vec![0; 8 + 4 + 32 + 4]);
        v.extend([1, 0, 0, 0].iter());
        v
    }
    pub fn preimages(&self, t: &OTx, idx: usize, value: u64) -> Vec<Vec<u8>> {
        let code = self.code_bytes();
        self.flags.iter().map(|f| t.preimage(idx, &code, value, *f as u32)).collect()
    }
    pub fn gen_sigs(&self, g: &mut Gen, shorter: bool) -> Vec<Vec<u8>> {
        self.sig_lens
            .iter()
            .map(|n| {
                let n = if shorter && *n > 0 && g.chance(1, 2) { let lo = if g.chance(1, 2) { n.saturating_sub(3) } else { 0 }; g.range(lo, *n) } else { *n };
                g.bytes(n)
            })
            .collect()
    }
    pub fn show(&self) -> String {
        format!(
            "{}{} flags {} siglens {:?} extra {} pre={} outs={} lock {}",
            if self.one { "one" } else { "many" },
            if self.p2sh { " p2sh" } else { "" },
            hex(&self.flags),
            self.sig_lens,
            hex(&self.extra.iter().flat_map(op_bytes).collect::<Vec<_>>()),
            self.push_preimage as u8,
            self.push_outputs as u8,
            hex(&self.lock_bytes())
        )
    }
}
pub fn ser_outs(outputs: &[(u64, Vec<u8>)]) -> Vec<u8> {
    outputs.iter().flat_map(|(v, s)| OOut { value: *v, script: s.clone() }.ser()).collect()
}
/// bytes after the n-th code separator operation
pub fn script_code(ops: &[Op], n: usize) -> Option<Vec<u8>> {
    let mut left = n;
    for (i, o) in ops.iter().enumerate() {
        if let Op::Code(c) = o {
            if *c as u8 == 0xab {
                if left == 0 {
                    return Some(ops[i + 1..].iter().flat_map(op_bytes).collect());
                }
                left -= 1;
            }
        }
    }
    None
}
impl Signatory for Probe1 {
    type Script = Built;
    type Signatures = ByteArray;
    type Kind = SignatoryKindOne;
    fn sig_hash_flags(&self) -> SigHashFlags {
        SigHashFlags::from_u8(self.plan.flags[0])
    }
    fn placeholder_signatures(&self) -> ByteArray {
        self.plan.placeholders()[0].clone().into()
    }
    fn build_script(&self, pre: &TxPreimage, est: Option<usize>, sigs: ByteArray, lock: &Script, outs: &[TxOutput]) -> Built {
        record(&self.plan, &self.log, std::slice::from_ref(pre), est, vec![sigs.to_vec()], lock, outs)
    }
    fn is_p2sh(&self) -> bool {
        self.plan.p2sh
    }
}
impl Signatory for ProbeN {
    type Script = Built;
    type Signatures = Vec<ByteArray>;
    type Kind = SignatoryKindMultiple;
    fn sig_hash_flags(&self) -> Vec<SigHashFlags> {
        self.plan.flags.iter().map(|f| SigHashFlags::from_u8(*f)).collect()
    }
    fn placeholder_signatures(&self) -> Vec<ByteArray> {
        self.plan.placeholders().into_iter().map(|p| p.into()).collect()
    }
    fn build_script(&self, pre: &[TxPreimage], est: Option<usize>, sigs: Vec<ByteArray>, lock: &Script, outs: &[TxOutput]) -> Built {
        record(&self.plan, &self.log, pre, est, sigs.iter().map(|s| s.to_vec()).collect(), lock, outs)
    }
    fn is_p2sh(&self) -> bool {
        self.plan.p2sh
    }
}
pub const FLAGS: &[u8] = &[0x41, 0x42, 0x43, 0xc1, 0xc2, 0xc3, 0x01, 0x02, 0x03, 0x81, 0x82, 0x83, 0x00, 0x40, 0x80, 0x61, 0x62, 0x63, 0x1f, 0xff];
pub fn gen_flag(g: &mut Gen) -> u8 {
    if g.chance(1, 6) {
        g.u8()
    } else {
        *g.pick(FLAGS)
    }
}
/// a locking script with code separators in interesting places
pub fn gen_lock(g: &mut Gen, max: usize, big: bool) -> Vec<Op> {
    let mut ops = gen_ops(g, max, big);
    if g.chance(1, 2) {
        for _ in 0..g.below(4) {
            let p = match g.below(4) {
                0 => 0,
                1 => ops.len(),
                _ => g.below(ops.len() + 1),
            };
            ops.insert(p, Op::Code(Opcode::OP_CODESEPARATOR));
        }
    }
    if g.chance(1, 4) {
        let p = g.below(ops.len() + 1);
        let n = g.range(1, 4);
        ops.insert(p, Op::PushByteArray { array: vec![0xab; n].into(), is_minimal: g.chance(1, 2) });
    }
    ops
}
pub fn gen_plan(g: &mut Gen, who: usize, big: bool) -> Plan {
    let one = g.chance(1, 2);
    let nf = if one { 1 } else { g.below(4) };
    let ns = if one { 1 } else { g.below(4) };
    let lens: &[usize] = &[0, 2, 64, 65, 71, 72, 73, 74, 75, 76, 77, 255, 256, 257];
    let lock = if big && g.chance(1, 6) {
        let n = *g.pick(&[72usize, 73, 74, 250, 251, 252, 253, 254, 255, 256, 515, 516, 517, 520]);
        vec![Op::PushByteArray { array: g.bytes(n).into(), is_minimal: true }, Op::Code(Opcode::OP_DROP)]
    } else {
        gen_lock(g, 6, false)
    };
    Plan {
        who,
        one,
        p2sh: g.chance(1, 2),
        flags: (0..nf).map(|_| gen_flag(g)).collect(),
        sig_lens: (0..ns).map(|_| *g.pick(if big { lens } else { &lens[..8] })).collect(),
        extra: if g.chance(1, 3) { gen_ops(g, 3, false) } else { vec![] },
        push_preimage: g.chance(1, 4),
        push_outputs: g.chance(1, 5),
        lock,
    }
}
pub fn outpoint_of(i: &OIn) -> TxOutpoint {
    lib_outpoint(i)
}
pub fn add(b: &mut TxBuilder<'static>, i: &OIn, value: u64, p: &Plan, log: &Log) -> usize {
    let input = UnsignedTxInput { prev_out: outpoint_of(i), sequence: i.seq, value };
    let lock: Vec<TaggedOp> = p.lock.iter().cloned().map(TaggedOp::from_op).collect();
    if p.one {
        b.add_input(input, TaggedScript::<Built>::new(lock), Probe1 { plan: p.clone(), log: log.clone() }).input_idx()
    } else {
        b.add_input(input, TaggedScript::<Built>::new(lock), ProbeN { plan: p.clone(), log: log.clone() }).input_idx()
    }
}
/// signs through one of the library's three calls
pub fn sign(u: &mut UnsignedTx<'static>, idx: usize, p: &Plan, log: &Log, sigs: &[Vec<u8>], how: usize) -> std::result::Result<(), error::Error> {
    let v: Vec<ByteArray> = sigs.iter().map(|s| s.clone().into()).collect();
    match (p.one, how) {
        (true, 0) => u.sign_input(InputReference::<Probe1>::new(idx), v[0].clone()),
        (true, 1) => u.sign_input_dyn(idx, Box::new(v[0].clone())),
        (true, _) => u.sign_input_signatory(InputReference::<Probe1>::new(idx), Probe1 { plan: p.clone(), log: log.clone() }, v[0].clone()),
        (false, 0) => u.sign_input(InputReference::<ProbeN>::new(idx), v),
        (false, 1) => u.sign_input_dyn(idx, Box::new(v)),
        (false, _) => u.sign_input_signatory(InputReference::<ProbeN>::new(idx), ProbeN { plan: p.clone(), log: log.clone() }, v),
    }
}
/// inputs of a scenario: outpoints, values and plans
pub struct Scene {
    pub ins: Vec<OIn>,
    pub values: Vec<u64>,
    pub plans: Vec<Plan>,
    pub version: i32,
    pub lock_time: u32,
}
pub fn gen_scene(g: &mut Gen, n: usize, big: bool) -> Scene {
    Scene {
        ins: (0..n).map(|_| OIn { txid: g.arr32(), vout: g.edge_u32(), script: vec![], seq: g.edge_u32() }).collect(),
        values: (0..n).map(|_| g.edge_u64() & 0x001f_ffff_ffff_ffff).collect(),
        plans: (0..n).map(|i| gen_plan(g, i, big)).collect(),
        version: g.edge_u32() as i32,
        lock_time: g.edge_u32(),
    }
}
impl Scene {
    pub fn otx(&self, outs: &[(u64, Vec<u8>)]) -> OTx {
        OTx {
            version: self.version,
            ins: self.ins.clone(),
            outs: outs.iter().map(|(v, s)| OOut { value: *v, script: s.clone() }).collect(),
            lock_time: self.lock_time,
        }
    }
    /// size of the transaction with every signature replaced by its placeholder
    pub fn estimate(&self, outs: &[(u64, Vec<u8>)]) -> usize {
        let mut t = self.otx(outs);
        for (i, p) in t.ins.iter_mut().zip(&self.plans) {
            i.script = p.unlock_bytes(&p.placeholders(), &vec![p.empty_preimage(); p.flags.len()], outs);
        }
        t.ser().len()
    }
    pub fn builder(&self, fee: u64, log: &Log) -> TxBuilder<'static> {
        let mut b = TxBuilder::new_with_fee(self.version, self.lock_time, fee);
        for i in 0..self.ins.len() {
            add(&mut b, &self.ins[i], self.values[i], &self.plans[i], log);
        }
        b
    }
    pub fn show(&self) -> String {
        let mut s = format!("v{} lt{}", self.version, self.lock_time);
        for i in 0..self.ins.len() {
            s.push_str(&format!(
                " | in {}:{} seq {} value {} {}",
                hex(&self.ins[i].txid[..4]),
                self.ins[i].vout,
                self.ins[i].seq,
                self.values[i],
                self.plans[i].show()
            ));
        }
        s
    }
    /// what a signing call for input `idx` must have passed to the unlocking-script builder
    pub fn check_call(&self, c: &Call, idx: usize, sigs: &[Vec<u8>], est: Option<usize>, outs: &[(u64, Vec<u8>)]) -> crate::framework::R {
        same!("signatory called", c.who, self.plans[idx].who);
        same!(format!("estimated size given to input {}", idx), c.est, est);
        ensure!(c.outputs == outs, "outputs given to input {} differ from the transaction's: {:?} != {:?}", idx, c.outputs, outs);
        same!(format!("lock script given to input {}", idx), hex(&c.lock), hex(&self.plans[idx].lock_bytes()));
        ensure!(c.sigs == sigs, "signatures given to input {} are not the ones passed", idx);
        let want = self.plans[idx].preimages(&self.otx(outs), idx, self.values[idx]);
        same!(format!("number of preimages given to input {}", idx), c.preimages.len(), want.len());
        for (k, (a, b)) in c.preimages.iter().zip(&want).enumerate() {
            same!(format!("preimage {} given to input {} (hash type {:02x})", k, idx, self.plans[idx].flags[k]), hex(a), hex(b));
        }
        Ok(())
    }
}
/// fixed outputs with scripts of all length classes
pub fn gen_outs(g: &mut Gen, n: usize) -> Vec<(u64, Vec<u8>)> {
    (0..n)
        .map(|_| {
            let m = if n > 20 { 2 } else { 5 };
            let s = script::encode(&script::gen_script(g, m, false, false));
            (g.edge_u64() & 0x000f_ffff_ffff_ffff, s)
        })
        .collect()
}
pub fn lib_out(o: &(u64, Vec<u8>)) -> TxOutput {
    TxOutput { value: o.0, script: Script::from_ops(ops_of(&o.1)) }
}

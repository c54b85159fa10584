//! C10 end-to-end signing
use super::sig::{gen_flag, gen_outs, lib_out, ser_outs};
use super::util::*;
use crate::framework::*;
use crate::oracle::hash::{hash160, sha256d};
use crate::oracle::interp::{from_tokens, truthy, IOp, Vm};
use crate::oracle::tx::*;
use crate::oracle::{ec, hex, script};
use crate::prng::Gen;
use crate::{ensure, same};
use bitcoin_cash::*;
use bitcoin_cash_ecc::SelectedECC;
use std::borrow::Cow;

thread_local! {
    static ECC_: &'static SelectedECC = Box::leak(Box::new(bitcoin_cash_ecc::init_ecc()));
}
pub fn init_ecc() -> &'static SelectedECC {
    ECC_.with(|e| *e)
}
pub fn gen_secret(g: &mut Gen) -> [u8; 32] {
    let mut k = g.arr32();
    match g.below(12) {
        0 => {
            k = [0; 32];
            k[31] = 1 + g.below(3) as u8;
        }
        1 => k = ec::be32(&(ec::n() - num::BigUint::from(1u8 + g.below(3) as u8))),
        2 => {
            for b in k.iter_mut().take(1 + g.below(31)) {
                *b = 0;
            }
        }
        _ => {}
    }
    if !ec::valid_secret(&k) {
        k = [7; 32];
    }
    k
}
#[derive(Clone, Debug)]
enum Kind {
    Pkh,
    Pk,
    Separated(usize),
    Multi(usize, usize),
    Twice,
}
struct Unlock(Vec<TaggedOp>);
impl Ops for Unlock {
    fn ops(&self) -> Cow<[TaggedOp]> {
        (&self.0[..]).into()
    }
}
struct Sigs {
    flags: Vec<SigHashFlags>,
    dummy: bool,
}
impl Signatory for Sigs {
    type Script = Unlock;
    type Signatures = Vec<ByteArray>;
    type Kind = SignatoryKindMultiple;
    fn sig_hash_flags(&self) -> Vec<SigHashFlags> {
        self.flags.clone()
    }
    fn placeholder_signatures(&self) -> Vec<ByteArray> {
        self.flags.iter().map(|_| vec![0; 72].into()).collect()
    }
    fn build_script(&self, _: &[TxPreimage], _: Option<usize>, sigs: Vec<ByteArray>, _: &Script, _: &[TxOutput]) -> Unlock {
        let mut ops = vec![];
        if self.dummy {
            ops.push(TaggedOp::from_op(Op::Code(Opcode::OP_0)));
        }
        for (s, f) in sigs.into_iter().zip(&self.flags) {
            let s = s.concat(ByteArray::new("hash type", [f.bits() as u8].as_ref()));
            ops.push(TaggedOp::from_op(s.into()));
        }
        Unlock(ops)
    }
}
struct Inp {
    kind: Kind,
    keys: Vec<[u8; 32]>,
    pubs: Vec<Vec<u8>>,
    flags: Vec<u8>,
    lock: Vec<Op>,
    /// the output script being spent
    spk: Vec<u8>,
    code: Vec<u8>,
}
fn push(d: &[u8]) -> Op {
    Op::PushByteArray { array: d.to_vec().into(), is_minimal: true }
}
fn op(b: u8) -> Op {
    Op::Code(opcode(b))
}
fn hash_flags(g: &mut Gen) -> u8 {
    if g.chance(4, 5) {
        *g.pick(&[0x41u8, 0x42, 0x43, 0xc1, 0xc2, 0xc3])
    } else {
        gen_flag(g)
    }
}
fn gen_inp(g: &mut Gen) -> Result<Inp, String> {
    let kind = match g.below(8) {
        0..=2 => Kind::Pkh,
        3 => Kind::Pk,
        4 => Kind::Separated(g.below(4)),
        5 => Kind::Twice,
        _ => {
            let n = g.range(1, 3);
            Kind::Multi(g.range(1, n), n)
        }
    };
    let nk = match kind {
        Kind::Multi(_, n) => n,
        Kind::Twice => 2,
        _ => 1,
    };
    let ecc = init_ecc();
    let keys: Vec<[u8; 32]> = (0..nk).map(|_| gen_secret(g)).collect();
    let mut pubs = vec![];
    for k in &keys {
        pubs.push(ecc.derive_pubkey(k).map_err(|e| e.to_string())?.as_slice().to_vec());
    }
    let ns = match kind {
        Kind::Multi(m, _) => m,
        Kind::Twice => 2,
        _ => 1,
    };
    let flags: Vec<u8> = (0..ns).map(|_| hash_flags(g)).collect();
    let mut lock = match &kind {
        Kind::Pkh => vec![op(0x76), op(0xa9), push(&hash160(&pubs[0])), op(0x88), op(0xac)],
        Kind::Pk => vec![push(&pubs[0]), op(0xac)],
        Kind::Twice => vec![push(&pubs[1]), op(0xad), push(&pubs[0]), op(0xac)],
        Kind::Separated(n) => {
            let mut v = vec![];
            for _ in 0..*n {
                v.push(push(&g.bytes(3)));
                v.push(op(0x75));
            }
            v.extend(vec![op(0xab), push(&pubs[0]), op(0xac)]);
            v
        }
        Kind::Multi(m, n) => {
            let mut v = vec![op(0x50 + *m as u8)];
            v.extend(pubs.iter().map(|p| push(p)));
            v.push(op(0x50 + *n as u8));
            v.push(op(0xae));
            v
        }
    };
    if let Kind::Pk = kind {
        // padding brings the redeem script across push-length classes
        if g.chance(1, 2) {
            let n = *g.pick(&[36usize, 37, 38, 215, 216, 217, 218, 480]);
            lock.insert(0, op(0x75));
            lock.insert(0, push(&g.bytes(n)));
        }
    }
    let bytes: Vec<u8> = lock.iter().flat_map(op_bytes).collect();
    let spk = match kind {
        Kind::Pkh => bytes.clone(),
        _ => {
            let mut v = vec![0xa9, 0x14];
            v.extend_from_slice(&hash160(&bytes));
            v.push(0x87);
            v
        }
    };
    let code = super::sig::script_code(&lock, 0).unwrap_or(bytes);
    Ok(Inp { kind, keys, pubs, flags, lock, spk, code })
}
struct Built {
    o: OTx,
    values: Vec<u64>,
    inps: Vec<Inp>,
    sigs: Vec<Vec<Vec<u8>>>,
}
fn build(g: &mut Gen, c: &mut Case, ni: usize) -> Result<Built, String> {
    let ecc = init_ecc();
    let inps: Vec<Inp> = (0..ni).map(|_| gen_inp(g)).collect::<Result<_, String>>()?;
    let ins: Vec<OIn> = (0..ni).map(|_| OIn { txid: g.arr32(), vout: g.edge_u32(), script: vec![], seq: g.edge_u32() }).collect();
    let values: Vec<u64> = (0..ni).map(|_| g.u64() >> (16 + g.below(30))).collect();
    let no = g.below(4);
    let total: u64 = values.iter().sum();
    let mut outs = gen_outs(g, no);
    for o in &mut outs {
        o.0 %= total / (no as u64 + 1) + 1;
    }
    let version = g.edge_u32() as i32;
    let lock_time = g.edge_u32();
    let leftover = g.chance(1, 2);
    c.input(format!(
        "v{} lt{} outs {} leftover {} ins {}",
        version,
        lock_time,
        hex(&ser_outs(&outs)),
        leftover,
        (0..ni)
            .map(|i| format!("[{:?} keys {} flags {} {}:{} seq {} value {}]", inps[i].kind, inps[i].keys.iter().map(|k| hex(k)).collect::<Vec<_>>().join(","), hex(&inps[i].flags), hex(&ins[i].txid), ins[i].vout, ins[i].seq, values[i]))
            .collect::<String>()
    ));
    let mut b = TxBuilder::new(version, lock_time);
    for i in 0..ni {
        let u = UnsignedTxInput { prev_out: lib_outpoint(&ins[i]), sequence: ins[i].seq, value: values[i] };
        let fl: Vec<_> = inps[i].flags.iter().map(|f| SigHashFlags::from_u8(*f)).collect();
        if let Kind::Pkh = inps[i].kind {
            let pubkey = ecc.derive_pubkey(&inps[i].keys[0]).map_err(|e| e.to_string())?;
            let a = if g.chance(1, 2) {
                Address::from_hash(Prefix::BitcoinCash, AddressType::P2PKH, Hash160::digest(pubkey.as_slice()))
            } else {
                Address::from_pk("bchtest", &pubkey)
            };
            b.add_input(u, a.p2pkh_script().map_err(|e| e.to_string())?, P2PKHSignatory { pubkey, sig_hash_flags: fl[0] });
        } else {
            let lock = inps[i].lock.iter().cloned().map(TaggedOp::from_op).collect();
            b.add_input(u, TaggedScript::<Unlock>::new(lock), Sigs { flags: fl, dummy: matches!(inps[i].kind, Kind::Multi(..)) });
        }
    }
    for o in &outs {
        b.add_output(lib_out(o));
    }
    if leftover {
        b.add_leftover_output(Script::from_ops(vec![op(0x51)]));
    }
    let mut u = b.build().map_err(|e| e.to_string())?;
    let pre = u.preimages().to_vec();
    let mut order: Vec<usize> = (0..ni).collect();
    for i in (1..ni).rev() {
        order.swap(i, g.below(i + 1));
    }
    let mut sigs: Vec<Vec<Vec<u8>>> = vec![vec![]; ni];
    for i in order {
        let mut s = vec![];
        for (k, p) in pre[i].iter().enumerate() {
            let key = match inps[i].kind {
                // any m of the keys, in order
                Kind::Multi(m, n) => inps[i].keys[n - m + k],
                _ => inps[i].keys[k],
            };
            s.push(ecc.sign(&key, Sha256d::digest(p.ser())).map_err(|e| e.to_string())?);
        }
        sigs[i] = s.iter().map(|x| x.to_vec()).collect();
        if let Kind::Pkh = inps[i].kind {
            if g.chance(1, 2) {
                u.sign_input(InputReference::<P2PKHSignatory>::new(i), s[0].clone()).map_err(|e| e.to_string())?;
            } else {
                u.sign_input_dyn(i, Box::new(s[0].clone())).map_err(|e| e.to_string())?;
            }
        } else {
            u.sign_input(InputReference::<Sigs>::new(i), s).map_err(|e| e.to_string())?;
        }
    }
    let t = u.complete_tx();
    let raw = t.ser().to_vec();
    let (o, used) = OTx::parse(&raw).ok_or("serialised transaction does not parse")?;
    same!("bytes parsed", used, raw.len());
    same!("transaction on the wire", hex(&otx_of(&t).ser()), hex(&raw));
    for i in 0..ni {
        same!("outpoint", (hex(&o.ins[i].txid), o.ins[i].vout, o.ins[i].seq), (hex(&ins[i].txid), ins[i].vout, ins[i].seq));
    }
    Ok(Built { o, values, inps, sigs })
}
/// executes the scripts of input `i` the way consensus does; `deep` verifies signatures with the independent implementation
fn spend(b: &Built, i: usize, deep: bool) -> Result<usize, String> {
    let toks = script::tokenize(&b.o.ins[i].script).ok_or("unlocking script does not tokenise")?;
    let unlock = from_tokens(&toks);
    ensure!(unlock.iter().all(|o| match o { IOp::Push(_) => true, IOp::Code(c) => *c <= 0x60 }), "unlocking script is not push-only: {}", hex(&b.o.ins[i].script));
    ensure!(toks.iter().all(|t| if let script::Tok::Push(o, d) = t { script::is_minimal(*o, d) } else { true }), "unlocking script has a non-minimal push");
    let seen = std::cell::Cell::new(0);
    let run = |stack: Vec<Vec<u8>>, bytes: &[u8]| -> Result<Vec<Vec<u8>>, String> {
        let toks = script::tokenize(bytes).ok_or("locking script does not tokenise")?;
        let offs: Vec<usize> = {
            let mut v = vec![0];
            for t in &toks {
                v.push(v.last().unwrap() + script::encode(&[t.clone()]).len());
            }
            v
        };
        let check = |sig: &[u8], pk: &[u8], after: usize| -> bool {
            if sig.is_empty() {
                return false;
            }
            let (s, ht) = sig.split_at(sig.len() - 1);
            let digest = b.o.sighash(i, &bytes[offs[after]..], b.values[i], ht[0] as u32);
            seen.set(seen.get() + 1);
            if deep {
                match ec::parse_der(s) {
                    Some((r, sv)) => ec::is_low_s(&sv) && ec::verify(pk, &digest, &r, &sv),
                    None => false,
                }
            } else {
                init_ecc().verify(pk, &digest, s).unwrap_or(false)
            }
        };
        let mut vm = Vm::new(&check);
        vm.stack = stack;
        vm.run(&from_tokens(&toks))?;
        Ok(vm.stack)
    };
    let nocheck = |_: &[u8], _: &[u8], _: usize| false;
    let mut vm = Vm::new(&nocheck);
    vm.run(&unlock)?;
    let st = vm.stack;
    let p2sh = !matches!(b.inps[i].kind, Kind::Pkh);
    let after = run(st.clone(), &b.inps[i].spk)?;
    ensure!(after.last().map_or(false, |v| truthy(v)), "locking script of input {} is not satisfied", i);
    let last = if p2sh {
        let mut st = st;
        let redeem = st.pop().ok_or("no redeem script")?;
        run(st, &redeem)?
    } else {
        after
    };
    ensure!(last.last().map_or(false, |v| truthy(v)), "script of input {} evaluates to false", i);
    same!(format!("stack items left by input {}", i), last.len(), 1);
    Ok(seen.get())
}
#[derive(Clone, Copy, Debug)]
enum Field {
    Version,
    LockTime,
    OwnOutpoint,
    OwnSequence,
    OwnValue,
    Code,
    HashType,
    OtherOutpoint,
    OtherSequence,
    OwnOutput,
    OtherOutput,
    AddInput,
    AddOutput,
    UnlockScript,
    OtherValue,
}
const FIELDS: &[Field] = &[
    Field::Version, Field::LockTime, Field::OwnOutpoint, Field::OwnSequence, Field::OwnValue, Field::Code, Field::HashType,
    Field::OtherOutpoint, Field::OtherSequence, Field::OwnOutput, Field::OtherOutput, Field::AddInput, Field::AddOutput,
    Field::UnlockScript, Field::OtherValue,
];
/// changes one field; returns whether hash type `f` of input `i` commits to it (None: not applicable here)
fn mutate(g: &mut Gen, o: &mut OTx, values: &mut [u64], code: &mut Vec<u8>, ht: &mut u32, i: usize, fld: Field) -> Option<bool> {
    let f = *ht;
    let acp = f & 0x80 != 0;
    let base = f & 0x1f;
    let others: Vec<usize> = (0..o.ins.len()).filter(|k| *k != i).collect();
    let oouts: Vec<usize> = (0..o.outs.len()).filter(|k| *k != i).collect();
    let all_outs = base != 2 && base != 3;
    match fld {
        Field::Version => {
            o.version ^= 1 << g.below(31);
            Some(true)
        }
        Field::LockTime => {
            o.lock_time ^= 1 << g.below(32);
            Some(true)
        }
        Field::OwnOutpoint => {
            if g.chance(1, 2) {
                o.ins[i].vout ^= 1 << g.below(32);
            } else {
                o.ins[i].txid[g.below(32)] ^= 1 << g.below(8);
            }
            Some(true)
        }
        Field::OwnSequence => {
            o.ins[i].seq ^= 1 << g.below(32);
            Some(true)
        }
        Field::OwnValue => {
            values[i] ^= 1 << g.below(64);
            Some(true)
        }
        Field::Code => {
            let k = g.below(code.len());
            code[k] ^= 1 << g.below(8);
            Some(true)
        }
        Field::HashType => {
            *ht ^= 1 << g.below(8);
            Some(true)
        }
        Field::OtherOutpoint => {
            if others.is_empty() {
                return None;
            }
            let k = *g.pick(&others);
            o.ins[k].txid[g.below(32)] ^= 1 << g.below(8);
            Some(!acp)
        }
        Field::OtherSequence => {
            if others.is_empty() {
                return None;
            }
            let k = *g.pick(&others);
            o.ins[k].seq ^= 1 << g.below(32);
            Some(!acp && all_outs)
        }
        Field::OwnOutput => {
            if i >= o.outs.len() {
                return None;
            }
            if g.chance(1, 2) {
                o.outs[i].value ^= 1 << g.below(64);
            } else {
                o.outs[i].script.push(0x51);
            }
            Some(base != 2)
        }
        Field::OtherOutput => {
            if oouts.is_empty() {
                return None;
            }
            let k = *g.pick(&oouts);
            if g.chance(1, 2) {
                o.outs[k].value ^= 1 << g.below(64);
            } else {
                o.outs[k].script.push(0x51);
            }
            Some(all_outs)
        }
        Field::AddInput => {
            let n = OIn { txid: g.arr32(), vout: g.u32(), script: vec![], seq: g.u32() };
            o.ins.push(n);
            Some(!acp)
        }
        Field::AddOutput => {
            o.outs.push(OOut { value: g.u64(), script: vec![0x6a] });
            // the output of the same index coming into existence is committed to by SINGLE
            Some(all_outs || (base == 3 && o.outs.len() - 1 == i))
        }
        Field::UnlockScript => {
            let k = g.below(o.ins.len());
            o.ins[k].script.push(0x51);
            Some(false)
        }
        Field::OtherValue => {
            if others.is_empty() {
                return None;
            }
            let k = *g.pick(&others);
            values[k] ^= 1 << g.below(64);
            Some(false)
        }
    }
}
/// library view of a mutated transaction, to ask the library itself for the message
fn lib_message(o: &OTx, values: &[u64], code: &[u8], ht: u32, i: usize) -> Option<Vec<u8>> {
    let toks = script::tokenize(code)?;
    if script::has_overlong(&toks) || o.ins.iter().any(|x| script::tokenize(&x.script).is_none()) {
        return None;
    }
    if toks.iter().any(|t| matches!(t, script::Tok::Op(0xab))) {
        return None;
    }
    let mut t = lib_tx(o);
    for (k, inp) in t.inputs.iter_mut().enumerate() {
        inp.value = Some(*values.get(k).unwrap_or(&0));
        inp.lock_script = Some(if k == i { Script::from_ops(ops_of(code)) } else { Script::from_ops(vec![]) });
    }
    Some(t.preimages(&[SigHashFlags::from_u8(ht as u8)])[i][0].ser().to_vec())
}
fn case(g: &mut Gen, c: &mut Case, deep: bool) -> R {
    let ni = g.range(1, 4);
    let b = build(g, c, ni)?;
    for i in 0..ni {
        c.class(format!("{:?}", b.inps[i].kind).split('(').next().unwrap().to_string());
        let n = spend(&b, i, deep)?;
        c.saw(n);
        ensure!(n >= b.inps[i].flags.len(), "input {} runs {} signature checks", i, n);
        // hash-type bytes really appended
        let toks = script::tokenize(&b.o.ins[i].script).unwrap();
        let pushed: Vec<Vec<u8>> = toks.iter().filter_map(|t| if let script::Tok::Push(_, d) = t { Some(d.clone()) } else { None }).collect();
        for (k, s) in b.sigs[i].iter().enumerate() {
            let mut w = s.clone();
            w.push(b.inps[i].flags[k]);
            ensure!(pushed.contains(&w), "signature {} of input {} with hash type {:02x} is not pushed", k, i, b.inps[i].flags[k]);
            c.class(format!("hash type {:02x}", b.inps[i].flags[k] & 0xc3));
        }
    }
    // commitments
    let ecc = init_ecc();
    for _ in 0..12 {
        let i = g.below(ni);
        let k = g.below(b.inps[i].flags.len());
        let fld = *g.pick(FIELDS);
        let mut o = b.o.clone();
        let mut values = b.values.clone();
        let mut code = b.inps[i].code.clone();
        let mut ht = b.inps[i].flags[k] as u32;
        let committed = match mutate(g, &mut o, &mut values, &mut code, &mut ht, i, fld) {
            Some(x) => x,
            None => continue,
        };
        let pk = match b.inps[i].kind {
            Kind::Multi(m, n) => &b.inps[i].pubs[n - m + k],
            _ => &b.inps[i].pubs[k],
        };
        let want = o.preimage(i, &code, values[i], ht);
        if let Some(m) = lib_message(&o, &values, &code, ht, i) {
            same!(format!("message after changing {:?}", fld), hex(&m), hex(&want));
        }
        let ok = ecc.verify(pk, &sha256d(&want), &b.sigs[i][k]).map_err(|e| e.to_string())?;
        c.saw(1);
        c.class(format!("{:?} {}", fld, if committed { "committed" } else { "free" }));
        ensure!(ok != committed, "after changing {:?} (hash type {:02x}, input {}) the signature {}", fld, b.inps[i].flags[k], i, if ok { "still verifies" } else { "no longer verifies" });
    }
    Ok(())
}
pub fn run(ctx: &mut Ctx) {
    ctx.rule("random keys and input mixes built and signed with the real back end; an independent interpreter runs unlocking and locking scripts with independent signature hashes (phase 'deep' also with an independent ECDSA); then single fields are changed and the signature must fail exactly if its hash type commits to the field");
    ctx.phase("deep", 150, 6_000, |g, c, _| case(g, c, true));
    ctx.phase("broad", 2_500, 40_000, |g, c, _| case(g, c, false));
}

//! C27 Sharing between threads: objects used by many threads at once answer as they do to one thread alone.
//! (the memory side is judged by ThreadSanitizer, under which the driver runs this same monitor)
use super::c10::gen_secret;
use super::sig::{gen_outs, gen_scene, lib_out, new_log};
use super::util::*;
use crate::framework::*;
use crate::oracle::script;
use crate::oracle::tx::OIn;
use crate::oracle::{ec, hex};
use crate::prng::{fnv, mix, Gen};
use bitcoin_cash::*;
use bitcoin_cash_ecc::SelectedECC;
use bitcoin_cash_slp::*;
use std::collections::BTreeMap;
use std::sync::{Arc, Barrier};
use std::time::Instant;

// ---- compile-time facts observed without making them a condition of compiling
struct Facts<T: ?Sized>(std::marker::PhantomData<T>);
trait No {
    const SHARED: bool = false;
}
impl<T: ?Sized> No for Facts<T> {}
impl<T: ?Sized + Send + Sync> Facts<T> {
    const SHARED: bool = true;
}
macro_rules! shared {
    ($($t:ty),* $(,)?) => { vec![$((stringify!($t), Facts::<$t>::SHARED)),*] };
}
struct NoSend(std::cell::Cell<u8>, *const u8);

/// everything the threads share; whether it may be shared is what is being tested
struct Share<T>(T);
unsafe impl<T> Send for Share<T> {}
unsafe impl<T> Sync for Share<T> {}

pub struct Fix {
    ecc: SelectedECC,
    keys: Vec<[u8; 32]>,
    pubs: Vec<Pubkey>,
    msgs: Vec<ByteArray>,
    sigs: Vec<(usize, usize, ByteArray)>,
    arrays: Vec<ByteArray>,
    raws: Vec<ByteArray>,
    scripts: Vec<Script>,
    txs: Vec<UnhashedTx>,
    hashed: Vec<Tx>,
    jsons: Vec<String>,
    addrs: Vec<Address<'static>>,
    texts: Vec<String>,
    unsigned: Vec<UnsignedTx<'static>>,
    names: Vec<String>,
}
impl Fix {
    /// everything that can be seen of the objects
    pub fn look(&self) -> String {
        let mut s = format!("{:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?}", self.keys, self.pubs, self.sigs, self.scripts, self.txs, self.hashed, self.jsons, self.addrs, self.texts);
        self.msgs.iter().chain(&self.arrays).chain(&self.raws).for_each(|b| show(b, &mut s));
        self.unsigned.iter().for_each(|u| s.push_str(&format!("{} {:?}", u.estimated_size(), u.preimages())));
        s
    }
}
fn computed(g: &mut Gen, n: usize) -> ByteArray {
    let b = g.bytes(n);
    let a = ByteArray::new("part", b);
    match g.below(6) {
        0 => a,
        1 => a.concat(ba(&[1, 2, 3])).named("both"),
        2 => Sha256::digest(a).into(),
        3 => Hash160::digest(a.concat(ByteArray::new("tail", vec![7u8; 5]))).into(),
        4 => Sha256d::digest(Sha256::digest(a).as_byte_array().clone()).into(),
        _ => ByteArray::from_parts((0..4).map(|i| a.clone().named(format!("p{}", i)))),
    }
}
pub fn fixture(g: &mut Gen) -> Fix {
    let ecc = bitcoin_cash_ecc::init_ecc();
    let keys: Vec<_> = (0..3).map(|_| gen_secret(g)).collect();
    let pubs: Vec<Pubkey> = keys.iter().map(|k| Pubkey::new(ec::pubkey(k))).collect();
    let msgs: Vec<ByteArray> = (0..3).map(|_| { let n = g.below(80); Sha256d::digest(computed(g, n)).into() }).collect();
    // signatures made by another context, so that the shared one is still untouched
    let other = bitcoin_cash_ecc::init_ecc();
    let mut sigs = vec![];
    for _ in 0..3 {
        let (k, m) = (g.below(3), g.below(3));
        sigs.push((k, m, other.sign(&keys[k], msgs[m].clone()).expect("sign")));
    }
    let arrays = (0..4).map(|_| { let n = g.edge_len(false); computed(g, n) }).collect();
    let scripts: Vec<Script> = (0..3).map(|_| Script::from_ops(gen_ops(g, 12, false))).collect();
    let otxs: Vec<_> = (0..3).map(|_| gen_otx(g, false, false)).collect();
    let mut txs: Vec<UnhashedTx> = otxs.iter().map(lib_tx).collect();
    for t in txs.iter_mut() {
        for i in t.inputs.iter_mut() {
            i.lock_script = Some(scripts[g.below(3)].clone());
            i.value = Some(g.edge_u64() >> 12);
            i.is_p2sh = Some(g.chance(1, 2));
            i.sig_hash_flags = Some(vec![SigHashFlags::DEFAULT]);
        }
    }
    let raws = otxs.iter().map(|t| ba(&t.ser()).named("raw")).collect();
    let hashed = txs.iter().map(|t| t.clone().hashed()).collect();
    let jsons = txs.iter().map(|t| tx_to_json(t).expect("json")).collect();
    let prefixes = ["bitcoincash", "bchtest", "simpleledger", "bchreg"];
    let addrs: Vec<Address<'static>> = (0..4)
        .map(|i| Address::from_hash(prefixes[i], if g.chance(1, 2) { AddressType::P2PKH } else { AddressType::P2SH }, Hash160::new(g.arr20())).into_owned_address())
        .collect();
    let texts = addrs.iter().map(|a| a.cash_addr().to_string()).collect();
    let unsigned = (0..2)
        .map(|_| {
            let s = gen_scene(g, 2, false);
            let mut b = s.builder(1000, &new_log());
            for o in gen_outs(g, 2) {
                b.add_output(lib_out(&(o.0 % 1000, o.1)));
            }
            b.build_without_estimation().expect("build")
        })
        .collect();
    let names = vec!["OP_DUP", "OP_CHECKSIG", "OP_0", "OP_CHECKDATASIG", "OP_REVERSEBYTES", "OP_NOP", "nothing"].into_iter().map(|s| s.to_string()).collect();
    Fix { ecc, keys, pubs, msgs, sigs, arrays, raws, scripts, txs, hashed, jsons, addrs, texts, unsigned, names }
}
/// the whole provenance of a byte string
fn show(b: &ByteArray, out: &mut String) {
    out.push_str(&format!("{}:{:?}:{:?}", hex(b), b.function(), b.name()));
    if let Some(p) = b.preimage() {
        out.push('(');
        p.iter().for_each(|x| show(x, out));
        out.push(')');
    }
}
fn shown(b: &ByteArray) -> String {
    let mut s = String::new();
    show(b, &mut s);
    s
}
pub const JOBS: &[&str] = &[
    "sign", "verify", "derive key", "normalise", "concat and split", "hash", "serialise script", "script code", "serialise tx", "hash tx", "preimages", "tx to JSON", "JSON to tx", "serde", "address from hash",
    "address from text", "address to script", "opcode names", "destination", "build and sign", "decode tx", "SLP", "numbers", "errors", "unsigned tx", "clone and compare", "debug text", "ECC clone", "bytes moved",
];
pub fn job(f: &Fix, kind: usize, x: u64) -> String {
    let g = &mut Gen::new(x);
    let e = |r: error::Error| format!("{} {:?}", r, r);
    match JOBS[kind] {
        "sign" => {
            let (k, m) = (g.below(f.keys.len()), g.below(f.msgs.len()));
            f.ecc.sign(&f.keys[k], f.msgs[m].clone()).map(|s| shown(&s)).unwrap_or_else(e)
        }
        "verify" => {
            let (k, m, s) = g.pick(&f.sigs);
            let k = if g.chance(1, 4) { g.below(3) } else { *k };
            let m = if g.chance(1, 4) { g.below(3) } else { *m };
            format!("{:?}", f.ecc.verify(f.pubs[k].as_slice(), &f.msgs[m], s))
        }
        "derive key" => format!("{:?}", f.ecc.derive_pubkey(g.pick(&f.keys))),
        "normalise" => {
            let mut s = g.pick(&f.sigs).2.to_vec();
            if g.chance(1, 2) {
                // any numbers, half of them with a high S
                let (r, t) = (g.arr32(), g.arr32());
                let int = |b: &[u8]| num::BigUint::from_bytes_be(b) % ec::n();
                s = ec::der(&int(&r), &int(&t));
            }
            if g.chance(1, 4) {
                let n = g.below(s.len());
                s[n] ^= 1;
            }
            format!("{:?}", f.ecc.normalize_sig(&s))
        }
        "concat and split" => {
            let mut a = g.pick(&f.arrays).clone();
            for _ in 0..3 {
                a = a.concat(g.pick(&f.arrays).clone());
                let n = g.below(a.len() + 2);
                a = match a.clone().split(n) {
                    Ok((l, r)) => {
                        if g.chance(1, 2) {
                            l
                        } else {
                            r
                        }
                    }
                    Err(_) => a,
                };
            }
            shown(&a.named("done"))
        }
        "hash" => {
            let a = g.pick(&f.arrays).clone();
            let s = match g.below(5) {
                0 => Sha1::digest(a).into_byte_array(),
                1 => Ripemd160::digest(a).into_byte_array(),
                2 => Sha256::digest(a).into_byte_array(),
                3 => Sha256d::digest(a).into_byte_array(),
                _ => Hash160::digest(a).into_byte_array(),
            };
            shown(&s)
        }
        "serialise script" => shown(&g.pick(&f.scripts).ser_ops()),
        "script code" => {
            let s = g.pick(&f.scripts);
            let n = if g.chance(1, 2) { None } else { Some(g.below(2)) };
            format!("{:?} {}", guarded(|| hex(&s.to_script_code(n).ser())), hex(&s.to_script_code_first().ser()))
        }
        "serialise tx" => shown(&g.pick(&f.txs).ser()),
        "hash tx" => {
            if g.chance(1, 2) {
                let t = g.pick(&f.hashed);
                format!("{:?} {}", t.hash(), hex(t.raw()))
            } else {
                let t = g.pick(&f.txs).clone().hashed();
                format!("{:?} {}", t.hash(), hex(t.raw()))
            }
        }
        "preimages" => {
            let fl = [SigHashFlags::from_u8(g.u8()), SigHashFlags::DEFAULT];
            g.pick(&f.txs).preimages(&fl).iter().flatten().map(|p| hex(&p.ser())).collect::<Vec<_>>().join(",")
        }
        "tx to JSON" => tx_to_json(g.pick(&f.txs)).unwrap_or_else(|e| e.to_string()),
        "JSON to tx" => json_to_tx(g.pick(&f.jsons)).map(|t| format!("{:?}", t)).unwrap_or_else(e),
        "serde" => {
            let t = g.pick(&f.txs);
            let j = serde_json::to_string(t).unwrap();
            let b = bincode::serialize(t).unwrap();
            let back: UnhashedTx = bincode::deserialize(&b).unwrap();
            let a: Address = serde_json::from_str(&serde_json::to_string(g.pick(&f.addrs)).unwrap()).unwrap();
            format!("{} {} {} {:?}", j, hex(&b), hex(&back.ser()), a)
        }
        "address from hash" => {
            let a = g.pick(&f.addrs);
            let b = Address::from_hash(*g.pick(&["bitcoincash", "bchtest", "odd"]), a.addr_type(), a.hash().clone());
            format!("{:?} {:?}", b, a.with_prefix(Prefix::SimpleLedger))
        }
        "address from text" => {
            let mut t = g.pick(&f.texts).clone();
            if g.chance(1, 4) {
                t.pop();
            }
            Address::from_cash_addr(t).map(|a| format!("{:?}", a)).unwrap_or_else(e)
        }
        "address to script" => {
            let s: Script = g.pick(&f.addrs).into();
            format!("{:?}", s)
        }
        "opcode names" => {
            let n = g.pick(&f.names);
            let o = MAP_NAME_TO_ENUM.get(n);
            format!("{:?} {} {:?} {:?}", o, MAP_NAME_TO_ENUM.len(), o.map(|o| o.behavior().output_order), num::FromPrimitive::from_u8(g.u8()).map(|o: Opcode| o.to_string()))
        }
        "destination" => {
            let s: Script = if g.chance(1, 2) { g.pick(&f.addrs).into() } else { g.pick(&f.scripts).clone() };
            format!("{:?} {:?}", script_destination("bchtest", &s), script_p2pkh_spend(&s).map(|p| hex(p.pubkey.as_slice())))
        }
        "build and sign" => {
            let (k, k2) = (g.below(3), g.below(3));
            let mut b = TxBuilder::new(2, g.u32());
            for (n, k) in [k, k2].iter().enumerate() {
                let i = OIn { txid: g.arr32(), vout: n as u32, script: vec![], seq: g.u32() };
                b.add_input(
                    UnsignedTxInput { prev_out: lib_outpoint(&i), sequence: i.seq, value: 100_000 },
                    Address::from_pk("bitcoincash", &f.pubs[*k]).p2pkh_script().unwrap(),
                    P2PKHSignatory { pubkey: f.pubs[*k].clone(), sig_hash_flags: SigHashFlags::DEFAULT },
                );
            }
            b.add_output(TxOutput { value: 5000, script: g.pick(&f.scripts).clone() });
            b.add_leftover_output(g.pick(&f.scripts).clone());
            let mut u = match b.build() {
                Ok(u) => u,
                Err(x) => return e(x),
            };
            let sigs: Vec<_> = u.preimages().iter().zip(&[k, k2]).map(|(p, k)| f.ecc.sign(&f.keys[*k], Sha256d::digest(p[0].ser())).unwrap()).collect();
            for (i, s) in sigs.into_iter().enumerate() {
                u.sign_input(InputReference::<P2PKHSignatory>::new(i), s).unwrap();
            }
            format!("{} {}", u.estimated_size(), hex(&u.complete_tx().ser()))
        }
        "decode tx" => {
            let mut r = g.pick(&f.raws).clone();
            if g.chance(1, 3) {
                let n = g.below(r.len());
                r = r.split(n).unwrap().0;
            }
            UnhashedTx::deser(r).map(|t| format!("{:?}", t)).unwrap_or_else(e)
        }
        "SLP" => {
            let id = TokenId::from_hash(g.pick(&f.hashed).hash().clone());
            let o = slp_send_output(SlpTokenType::Fungible, &id, &[g.u64(), 5]);
            format!("{:?} {:?} {:?}", o, id, slp_amount_ops(&[1, 2, 3]))
        }
        "numbers" => {
            let (a, b) = (g.edge_i32(), g.edge_i32());
            let r = match (Integer::new(a), Integer::new(b)) {
                (Ok(a), Ok(b)) => format!("{:?} {:?} {:?}", (a + b).integer(), (a * b).integer(), (a - b).integer()),
                (a, b) => format!("{:?} {:?}", a, b),
            };
            format!("{} {:?}", r, ByteArray::from_int(Integer::new(a % 100_000).unwrap(), Integer::new(4).unwrap()).map(|x| shown(&x)).map_err(|e| e.to_string()))
        }
        "errors" => {
            let n = g.below(40);
            let b = g.bytes(n);
            let x = [
                err_of(Script::deser(ba(&b))),
                err_of(TxInput::deser(ba(&b))),
                f.ecc.sign(&b, f.msgs[0].clone()).map(|_| String::new()).unwrap_or_else(|x| x.to_string()),
                f.ecc.verify(&b, &f.msgs[0], &b).map(|b| b.to_string()).unwrap_or_else(|x| x.to_string()),
                err_of(Address::from_cash_addr(hex(&b))),
            ];
            x.join(" / ")
        }
        "unsigned tx" => {
            let u = g.pick(&f.unsigned);
            format!("{} {}", u.estimated_size(), u.preimages().iter().flatten().map(|p| hex(&p.ser())).collect::<Vec<_>>().join(","))
        }
        "clone and compare" => {
            let (a, b) = (g.pick(&f.txs), g.pick(&f.txs));
            let (c, d) = (a.clone(), b.clone());
            let (s, t) = (g.pick(&f.scripts), g.pick(&f.scripts).clone());
            let (x, y) = (g.pick(&f.arrays), g.pick(&f.arrays).clone());
            format!("{} {} {} {} {}", a.ser() == c.ser(), a.ser() == d.ser(), b.ser() == d.ser(), s.ser_ops() == t.ser_ops(), *x == y)
        }
        "debug text" => format!("{:?} {:?} {:?}", g.pick(&f.scripts), g.pick(&f.arrays), g.pick(&f.hashed)),
        "ECC clone" => {
            #[cfg(feature = "c_ecc")]
            let c = f.ecc.clone();
            #[cfg(not(feature = "c_ecc"))]
            let c = SelectedECC::default();
            let (k, m) = (g.below(3), g.below(3));
            c.sign(&f.keys[k], f.msgs[m].clone()).map(|s| hex(&s)).unwrap_or_else(e)
        }
        "bytes moved" => {
            // clones are made here and dropped in this thread while others hold the originals
            let v: Vec<ByteArray> = (0..20).map(|i| f.arrays[i % f.arrays.len()].clone()).collect();
            let w = ByteArray::from_parts(v.iter().cloned());
            drop(v);
            let s = Script::from_ops(w.preimage().unwrap_or(&[]).iter().map(|p| Op::from_array(p.clone())));
            shown(&s.ser_ops())
        }
        x => panic!("no job {}", x),
    }
}
struct Ev {
    start: u128,
    end: u128,
    kind: usize,
    x: u64,
    out: Result<String, String>,
}
fn spin(g: &mut Gen) {
    match g.below(6) {
        0 => std::thread::yield_now(),
        1 => (0..g.below(400)).for_each(|_| std::hint::spin_loop()),
        2 => std::thread::sleep(std::time::Duration::from_micros(g.below(60) as u64)),
        _ => {}
    }
}
fn round(g: &mut Gen, c: &mut Case, threads: usize, per: usize) -> R {
    let seed = g.u64();
    // a few jobs that everybody does, in an order of each thread's own, and some random ones
    let hot: Vec<(usize, u64)> = (0..g.range(2, 6)).map(|_| (g.below(JOBS.len()), g.u64())).collect();
    c.input(format!("{} threads, {} jobs each, fixture {}, common jobs {:?}", threads, per, seed, hot.iter().map(|h| JOBS[h.0]).collect::<Vec<_>>()));
    let fix = Arc::new(Share(fixture(&mut Gen::new(seed))));
    let barrier = Arc::new(Barrier::new(threads));
    let t0 = Instant::now();
    let handles: Vec<_> = (0..threads)
        .map(|t| {
            let (fix, barrier, hot) = (fix.clone(), barrier.clone(), hot.clone());
            let mut g = Gen::new(mix(seed) ^ mix(t as u64 + 1));
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    barrier.wait();
                    let mut evs = Vec::with_capacity(per);
                    let sh: &Share<Fix> = &fix;
                    for _ in 0..per {
                        let (kind, x) = if g.chance(2, 3) { *g.pick(&hot) } else { (g.below(JOBS.len()), mix(g.below(50) as u64)) };
                        spin(&mut g);
                        let start = t0.elapsed().as_nanos();
                        let out = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| job(&sh.0, kind, x))).map_err(|_| "panic".to_string());
                        evs.push(Ev { start, end: t0.elapsed().as_nanos(), kind, x, out });
                    }
                    evs
                })
                .expect("thread")
        })
        .collect();
    let logs: Vec<Vec<Ev>> = handles.into_iter().map(|h| h.join().map_err(|_| "a thread died".to_string())).collect::<Result<_, _>>()?;
    drop(fix);
    // offline: one thread alone, on objects of its own
    let alone = fixture(&mut Gen::new(seed));
    let mut want: BTreeMap<(usize, u64), Result<String, String>> = BTreeMap::new();
    let mut n = 0;
    for (t, l) in logs.iter().enumerate() {
        for ev in l {
            let w = want.entry((ev.kind, ev.x)).or_insert_with(|| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| job(&alone, ev.kind, ev.x))).map_err(|_| "panic".to_string()));
            n += 1;
            c.class(format!("job {}", JOBS[ev.kind]));
            if *w != ev.out {
                let d = |r: &Result<String, String>| match r {
                    Ok(s) => clip(s, 300),
                    Err(s) => s.clone(),
                };
                return Err(format!("thread {}: `{}` answered {} while other threads were at work; alone it answers {}", t, JOBS[ev.kind], d(&ev.out), d(w)));
            }
        }
    }
    // which jobs really overlapped in time
    let mut all: Vec<(usize, &Ev)> = logs.iter().enumerate().flat_map(|(t, l)| l.iter().map(move |e| (t, e))).collect();
    all.sort_by_key(|(_, e)| e.start);
    let mut order = 0u64;
    for (i, (t, a)) in all.iter().enumerate() {
        order = mix(order ^ fnv(&[*t as u8, a.kind as u8]));
        for (u, b) in all[i + 1..].iter().take_while(|(_, b)| b.start < a.end) {
            if t != u {
                n += 1;
                let (x, y) = if a.kind <= b.kind { (a.kind, b.kind) } else { (b.kind, a.kind) };
                c.class(if (a.kind, a.x) == (b.kind, b.x) { format!("overlap of one job on one object: {}", JOBS[x]) } else { format!("overlap: {} + {}", JOBS[x], JOBS[y]) });
            }
        }
    }
    c.input(format!("{} threads, {} jobs each, fixture {}, order of starts {:016x}", threads, per, seed, order));
    c.saw(n);
    Ok(())
}
/// all the single-thread monitors at once, in one process
fn monitors(c: &mut Case, i: u64, o: &Opts, cap: u64, slow: bool) -> R {
    const ALL: &[&str] = &["C01", "C03", "C05", "C06", "C07", "C09", "C10", "C12", "C13", "C14", "C15", "C17", "C18", "C21", "C22", "C23", "C25", "C04", "C08", "C24"];
    // (the last ones start with very large cases)
    let ids: &'static [&'static str] = if slow { &ALL[..17] } else { ALL };
    let threads = 8usize;
    let barrier = Arc::new(Barrier::new(threads));
    c.input(format!("turn {} of all monitors, {} threads", i, threads));
    let handles: Vec<_> = (0..threads)
        .map(|t| {
            let barrier = barrier.clone();
            let outdir = format!("{}/nested-{}-{}", o.outdir, o.shard.0, t);
            let seed = o.seed.wrapping_mul(1000) + i;
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    std::fs::create_dir_all(&outdir).expect("scratch");
                    let (mut n, mut bad, mut ev) = (0, vec![], 0);
                    for k in 0..ids.len() {
                        // in pairs of threads: the same monitor at once, the others shifted
                        let id = ids[(k + (t / 2) * 5 + i as usize * 3) % ids.len()];
                        if k % 4 == 0 {
                            barrier.wait();
                        }
                        let o = Opts { id: id.to_string(), thorough: false, seed: seed + t as u64, shard: (t as u64, threads as u64), only: None, outdir: outdir.clone(), phase_secs: if slow { 0.8 } else { 1.5 }, scale: 1.0, cap: Some(cap) };
                        let mut ctx = Ctx::new(o);
                        super::run(id, &mut ctx);
                        n += ctx.evals;
                        ev += ctx.events;
                        bad.extend(ctx.violations.into_iter().map(|v| format!("{} {}#{} on {}: {}", id, v.phase, v.index, clip(&v.input, 200), clip(&v.detail, 300))));
                    }
                    (n, ev, bad)
                })
                .expect("thread")
        })
        .collect();
    let mut all = vec![];
    for h in handles {
        let (n, ev, bad) = h.join().map_err(|_| "a thread died".to_string())?;
        c.saw(ev as usize);
        for _ in 0..n {
            c.class("monitored case beside seven others");
        }
        all.extend(bad);
    }
    crate::ensure!(all.is_empty(), "with eight threads at work: {}", all[0]);
    Ok(())
}
pub fn run(ctx: &mut Ctx) {
    ctx.rule("rounds of threads sharing one set of objects, each answer compared with that of one thread alone on objects of its own; a round is distinct by its fixture and the order in which the threads' jobs started");
    ctx.exhaustive("types", 1, |_, c, _| {
        c.input("which types may be shared between threads".to_string());
        let facts = shared!(
            ByteArray, Script, UnhashedTx, Tx, TxInput, TxOutput, TxOutpoint, TxPreimage, TaggedOp, Op, Opcode, Integer, Pubkey, Sha1, Ripemd160, Sha256, Sha256d, Hash160, Address<'static>, Destination<'static>,
            SigHashFlags, TxBuilder<'static>, UnsignedTx<'static>, P2PKHSignatory, SelectedECC, TokenId, DataType, Function, error::Error, InputReference<P2PKHSignatory>
        );
        c.saw(facts.len());
        // (the trick tells the two apart)
        assert!(!Facts::<NoSend>::SHARED && Facts::<u8>::SHARED);
        let bad: Vec<_> = facts.iter().filter(|f| !f.1).map(|f| f.0).collect();
        crate::ensure!(bad.is_empty(), "not to be sent to and shared between threads: {:?}", bad);
        Ok(())
    });
    let tsan = std::env::var("VERIF_SLOW").is_ok();
    let per = if tsan { 30 } else { 120 };
    ctx.phase("rounds", if tsan { 100 } else { 400 }, if tsan { 2000 } else { 20_000 }, |g, c, _| {
        let t = g.range(4, 10);
        round(g, c, t, per)
    });
    if !ctx.o.outdir.is_empty() {
        let o = Opts { id: ctx.o.id.clone(), only: None, outdir: ctx.o.outdir.clone(), ..ctx.o };
        let cap = if tsan { 6 } else { 40 };
        ctx.phase("all monitors", if tsan { 4 } else { 8 }, if tsan { 40 } else { 200 }, |_, c, i| monitors(c, i, &o, cap, tsan));
    }
    let _ = script::tokenize;
}

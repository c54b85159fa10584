//! C15 Transaction JSON: lossless, including annotations and provenance, and stable.
use super::c14::print;
use super::util::*;
use crate::framework::*;
use crate::oracle::hex;
use crate::prng::Gen;
use crate::{ensure, same};
use bitcoin_cash::*;
use std::borrow::Cow;
use std::sync::Arc;

const TEXT: [&str; 12] = ["", "a", "sig", "pubkey", "<unknown>", "src/lib.rs", "let \"x\" = 1;\n\t\\", "\u{0}\u{1}\u{7f}", "\u{e9}\u{4e2d}\u{1f600}", "/", "null", "0"];
pub fn text(g: &mut Gen) -> String {
    if g.chance(5, 6) {
        g.pick(&TEXT).to_string()
    } else {
        let n = g.below(20);
        String::from_utf8_lossy(&g.bytes(n)).into_owned()
    }
}
fn cow(g: &mut Gen) -> Cow<'static, str> {
    if g.chance(1, 2) {
        Cow::Borrowed(*g.pick(&TEXT))
    } else {
        Cow::Owned(text(g))
    }
}
pub const FUNCTIONS: [Function; 12] = [
    Function::Plain,
    Function::Sha1,
    Function::Ripemd160,
    Function::Sha256,
    Function::Hash256,
    Function::Hash160,
    Function::Num2Bin,
    Function::EcdsaSign,
    Function::SchnorrSign,
    Function::ToDataSig,
    Function::UnexpectedSplit,
    Function::Reverse,
];
/// arbitrary byte strings with arbitrary provenance; the pool makes data, names and whole subtrees recur
pub fn gen_tree(g: &mut Gen, pool: &mut Vec<ByteArray>, depth: usize) -> ByteArray {
    if !pool.is_empty() && g.chance(1, 4) {
        let b = g.pick(pool).clone();
        // a copy that shares data and parts with another byte string, under another name
        return match g.below(6) {
            0 | 1 => {
                let n = cow(g);
                b.named(n)
            }
            2 => ByteArray::from_preimage(Arc::clone(b.data()), b.name_arc().cloned(), *g.pick(&FUNCTIONS), b.preimage_arc().cloned()),
            3 => {
                let n = g.below(5);
                let d = g.bytes(n);
                ByteArray::from_preimage(Arc::<[u8]>::from(d), b.name_arc().cloned(), b.function(), b.preimage_arc().cloned())
            }
            _ => b,
        };
    }
    let data: Arc<[u8]> = if !pool.is_empty() && g.chance(1, 5) {
        // equal bytes in a different array
        let d = g.pick(pool).to_vec();
        d.into()
    } else {
        let n = match g.below(6) {
            0 => 0,
            1 => *g.pick(&[1usize, 20, 32, 33, 72]),
            2 => g.edge_len(false).min(600),
            _ => g.below(9),
        };
        g.bytes(n).into()
    };
    let name = if g.chance(1, 2) { Some(Arc::new(cow(g))) } else { None };
    let b = match g.below(6) {
        0 => ByteArray::from_preimage(data, name, Function::Plain, None),
        1 => {
            let f = *g.pick(&FUNCTIONS);
            ByteArray::from_preimage(data, name, f, None)
        }
        2 if depth > 0 => {
            let (x, y) = (gen_tree(g, pool, depth - 1), gen_tree(g, pool, depth - 1));
            x.concat(y).named_option(name)
        }
        3 if depth > 0 => {
            let x = gen_tree(g, pool, depth - 1);
            match g.below(3) {
                0 => Sha256::digest(x).into_byte_array(),
                1 => Hash160::digest(x).into_byte_array(),
                _ => Sha256d::digest(x).into_byte_array(),
            }
            .named_option(name)
        }
        _ if depth > 0 => {
            let f = *g.pick(&FUNCTIONS);
            let n = g.below(4);
            let p: Vec<ByteArray> = (0..n).map(|_| gen_tree(g, pool, depth - 1)).collect();
            ByteArray::from_preimage(data, name, f, Some(p.into()))
        }
        _ => ByteArray::from_preimage(data, name, Function::Plain, None),
    };
    if pool.len() < 12 {
        pool.push(b.clone());
    }
    b
}
fn names(g: &mut Gen) -> Option<Vec<Option<Cow<'static, str>>>> {
    match g.below(3) {
        0 => None,
        _ => {
            let n = g.below(4);
            Some((0..n).map(|_| if g.chance(2, 3) { Some(cow(g)) } else { None }).collect())
        }
    }
}
fn gen_tagged(g: &mut Gen, pool: &mut Vec<ByteArray>, depth: usize) -> TaggedOp {
    let op = match g.below(3) {
        0 => gen_op(g, false),
        1 => Op::PushByteArray { array: gen_tree(g, pool, depth), is_minimal: g.chance(1, 2) },
        _ => match gen_op(g, false) {
            // any byte as an invalid opcode, also one that is an opcode
            Op::Invalid(_) => Op::Invalid(g.u8()),
            o => o,
        },
    };
    if g.chance(1, 4) {
        return TaggedOp::from_op(op);
    }
    gen_tagged_around(g, op)
}
fn gen_tagged_around(g: &mut Gen, op: Op) -> TaggedOp {
    let n = g.below(4);
    TaggedOp {
        op,
        src_file: cow(g),
        src_line: g.edge_u32(),
        src_column: g.edge_u32(),
        src_code: (0..n).map(|_| (g.edge_u32(), cow(g))).collect(),
        pushed_names: names(g),
        alt_pushed_names: names(g),
    }
}
pub fn gen_script(g: &mut Gen, pool: &mut Vec<ByteArray>, max: usize, depth: usize) -> Script {
    let n = g.below(max + 1);
    Script::new((0..n).map(|_| gen_tagged(g, pool, depth)).collect::<Vec<_>>())
}
pub fn gen_flags(g: &mut Gen) -> SigHashFlags {
    SigHashFlags::from_u8(if g.chance(1, 2) { 0x41 } else { g.u8() })
}
pub fn gen_annotated(g: &mut Gen, size: usize, depth: usize) -> UnhashedTx {
    let mut pool = vec![];
    let p = &mut pool;
    let (ni, no) = (g.below(size + 1), g.below(size + 1));
    let inputs = (0..ni)
        .map(|_| {
            let tx_hash = match g.below(3) {
                0 => Sha256d::new(g.arr32()),
                1 => Sha256d::digest(gen_tree(g, p, depth)),
                _ => {
                    let x = g.arr32();
                    let f = *g.pick(&FUNCTIONS);
                    let t = gen_tree(g, p, depth);
                    let nm = Arc::new(cow(g));
                    Sha256d::from_byte_array(ByteArray::from_preimage(x.to_vec().into(), Some(nm), f, Some(vec![t].into()))).unwrap()
                }
            };
            let n = g.below(3);
            TxInput {
                prev_out: TxOutpoint { tx_hash, vout: g.edge_u32() },
                script: gen_script(g, p, 6, depth),
                sequence: g.edge_u32(),
                lock_script: if g.chance(1, 2) { Some(gen_script(g, p, 4, depth)) } else { None },
                value: if g.chance(1, 2) { Some(g.edge_u64()) } else { None },
                is_p2sh: if g.chance(1, 2) { Some(g.chance(1, 2)) } else { None },
                sig_hash_flags: if g.chance(1, 2) { Some((0..n).map(|_| gen_flags(g)).collect()) } else { None },
            }
        })
        .collect();
    let outputs = (0..no).map(|_| TxOutput { value: g.edge_u64(), script: gen_script(g, p, 5, depth) }).collect();
    UnhashedTx { version: g.edge_u32() as i32, inputs, outputs, lock_time: g.edge_u32() }
}
pub fn deep_bytes(what: &str, a: &ByteArray, b: &ByteArray) -> R {
    ensure!(print(a) == print(b), "{}: {}", what, difference(a, b, "").unwrap_or_else(|| "differs".into()));
    Ok(())
}
fn difference(a: &ByteArray, b: &ByteArray, at: &str) -> Option<String> {
    if a.as_slice() != b.as_slice() {
        return Some(format!("bytes{} {} / {}", at, hex(a), hex(b)));
    }
    if a.name() != b.name() || a.function() != b.function() {
        return Some(format!("{:?} {:?} / {:?} {:?} at{}", a.name(), a.function(), b.name(), b.function(), at));
    }
    match (a.preimage(), b.preimage()) {
        (None, None) => None,
        (Some(x), Some(y)) if x.len() == y.len() => x.iter().zip(y).enumerate().filter_map(|(i, (p, q))| difference(p, q, &format!("{}/{}", at, i))).next(),
        (x, y) => Some(format!("{:?} / {:?} parts at{}", x.map(|v| v.len()), y.map(|v| v.len()), at)),
    }
}
fn deep_script(what: &str, a: &Script, b: &Script) -> R {
    same!(format!("{}: number of operations", what), b.ops().len(), a.ops().len());
    for (i, (x, y)) in a.ops().iter().zip(b.ops().iter()).enumerate() {
        let at = format!("{} operation {}", what, i);
        ensure!(op_eq(&x.op, &y.op), "{}: {:?} became {:?}", at, x.op, y.op);
        if let (Op::PushByteArray { array: p, .. }, Op::PushByteArray { array: q, .. }) = (&x.op, &y.op) {
            deep_bytes(&at, p, q)?;
        }
        same!(format!("{} source file", at), y.src_file, x.src_file);
        same!(format!("{} source line", at), y.src_line, x.src_line);
        same!(format!("{} source column", at), y.src_column, x.src_column);
        same!(format!("{} source text", at), y.src_code, x.src_code);
        same!(format!("{} names", at), y.pushed_names, x.pushed_names);
        same!(format!("{} alt names", at), y.alt_pushed_names, x.alt_pushed_names);
    }
    Ok(())
}
pub fn deep_tx(a: &UnhashedTx, b: &UnhashedTx) -> R {
    same!("version", b.version, a.version);
    same!("lock time", b.lock_time, a.lock_time);
    same!("counts", (b.inputs.len(), b.outputs.len()), (a.inputs.len(), a.outputs.len()));
    for (i, (x, y)) in a.inputs.iter().zip(&b.inputs).enumerate() {
        let w = format!("input {}", i);
        deep_bytes(&format!("{} outpoint hash", w), x.prev_out.tx_hash.as_byte_array(), y.prev_out.tx_hash.as_byte_array())?;
        same!(format!("{} vout", w), y.prev_out.vout, x.prev_out.vout);
        same!(format!("{} sequence", w), y.sequence, x.sequence);
        same!(format!("{} value", w), y.value, x.value);
        same!(format!("{} is_p2sh", w), y.is_p2sh, x.is_p2sh);
        let bits = |v: &Option<Vec<SigHashFlags>>| v.as_ref().map(|v| v.iter().map(|f| f.bits()).collect::<Vec<_>>());
        same!(format!("{} flags", w), bits(&y.sig_hash_flags), bits(&x.sig_hash_flags));
        deep_script(&format!("{} script", w), &x.script, &y.script)?;
        match (&x.lock_script, &y.lock_script) {
            (None, None) => (),
            (Some(p), Some(q)) => deep_script(&format!("{} lock script", w), p, q)?,
            (p, q) => return Err(format!("{} lock script {:?} became {:?}", w, p.is_some(), q.is_some())),
        }
    }
    for (i, (x, y)) in a.outputs.iter().zip(&b.outputs).enumerate() {
        same!(format!("output {} value", i), y.value, x.value);
        deep_script(&format!("output {} script", i), &x.script, &y.script)?;
    }
    Ok(())
}
pub fn round_trip(c: &mut Case, tx: &UnhashedTx) -> R {
    let doc = tx_to_json(tx).map_err(|e| format!("not exported: {}", e))?;
    c.input(clip(&doc, 3000));
    c.saw(2);
    let back = json_to_tx(&doc).map_err(|e| format!("exported document refused: {}", e))?;
    deep_tx(tx, &back)?;
    let again = tx_to_json(&back).map_err(|e| format!("not exported again: {}", e))?;
    ensure!(again == doc, "second export differs: {} / {}", clip(&doc, 3000), clip(&again, 3000));
    // the document may be reformatted on the way
    let v: serde_json::Value = serde_json::from_str(&doc).map_err(|e| format!("document is not JSON: {}", e))?;
    let back = json_to_tx(&serde_json::to_string_pretty(&v).unwrap()).map_err(|e| format!("reformatted document refused: {}", e))?;
    deep_tx(tx, &back)
}
pub fn chain(levels: usize, f: Function) -> ByteArray {
    let mut b = ba(b"x");
    for i in 0..levels {
        b = ByteArray::from_preimage(vec![i as u8, (i >> 8) as u8].into(), None, f, Some(vec![b].into()));
    }
    b
}
pub fn run(ctx: &mut Ctx) {
    ctx.rule("random annotated transactions with recurring and nested provenance exported, imported and exported again; compared field by field and provenance tree by provenance tree with a strict comparison of this harness's own");
    ctx.phase("annotated transactions", 6_000, 200_000, |g, c, _| {
        let (size, depth) = match g.below(5) {
            0 => (8, 1),
            1 => (1, 7),
            2 => (2, 5),
            _ => (3, 3),
        };
        let tx = gen_annotated(g, size, depth);
        c.class(format!("{} inputs, {} outputs", tx.inputs.len().min(3), tx.outputs.len().min(3)));
        round_trip(c, &tx)
    });
    // more of everything than 8 or 16 bits can count
    ctx.exhaustive("large documents", 16, |g, c, i| {
        let mut tx = gen_annotated(g, 2, 3);
        let mut pool = vec![];
        let tag = |g: &mut Gen, op: Op| gen_tagged_around(g, op);
        let what = match i {
            0 | 1 => {
                let n = [300usize, 700][i as usize];
                tx.inputs = (0..n).flat_map(|_| gen_annotated(g, 2, 1).inputs.into_iter().take(1).collect::<Vec<_>>()).collect();
                tx.outputs = (0..n).map(|k| TxOutput { value: g.edge_u64(), script: if k % 7 == 0 { gen_script(g, &mut pool, 3, 1) } else { Script::from_ops(vec![Op::Code(Opcode::OP_1)]) } }).collect();
                format!("{} inputs, {} outputs", tx.inputs.len(), n)
            }
            2 | 3 | 4 => {
                // many different byte strings
                let n = [300usize, 1500, 66_000][i as usize - 2];
                let ops: Vec<Op> = (0..n).map(|k| Op::PushByteArray { array: ba(&(k as u32).to_le_bytes()[..]), is_minimal: true }).collect();
                tx.outputs.push(TxOutput { value: 1, script: Script::from_ops(ops) });
                format!("{} byte strings", n)
            }
            5 | 6 | 7 => {
                // many different names, files and lines of source text
                let n = [300usize, 1500, 66_000][i as usize - 5];
                let ops: Vec<TaggedOp> = (0..n)
                    .map(|k| {
                        let mut t = TaggedOp::from_op(Op::Code(Opcode::OP_NOP));
                        match k % 4 {
                            0 => t.src_file = Cow::Owned(format!("file {}", k)),
                            1 => t.src_code = vec![(k as u32, Cow::Owned(format!("line {}", k)))],
                            2 => t.pushed_names = Some(vec![Some(Cow::Owned(format!("name {}", k)))]),
                            _ => t.op = Op::PushByteArray { array: ba(b"same").named(format!("bytes {}", k)), is_minimal: false },
                        }
                        t
                    })
                    .collect();
                tx.outputs.push(TxOutput { value: 1, script: Script::new(ops) });
                format!("{} strings", n)
            }
            8 | 9 => {
                let n = [300usize, 66_000][i as usize - 8];
                let parts: Vec<ByteArray> = (0..n).map(|k| ba(&(k as u32).to_le_bytes()[..1 + k % 4])).collect();
                let b = ByteArray::from_preimage(g.bytes(7).into(), None, Function::EcdsaSign, Some(parts.into()));
                tx.outputs.push(TxOutput { value: 1, script: Script::from_ops(vec![Op::from_array(b)]) });
                format!("{} parts", n)
            }
            10 | 11 => {
                let n = [300usize, 66_000][i as usize - 10];
                let ops: Vec<Op> = (0..n).map(|_| if g.chance(1, 2) { Op::PushInteger(Integer::new(g.below(600) as i32 - 300).unwrap()) } else { Op::Code(Opcode::OP_DUP) }).collect();
                tx.outputs.push(TxOutput { value: 1, script: Script::from_ops(ops) });
                format!("{} operations", n)
            }
            12 => {
                let mut t = tag(g, Op::Code(Opcode::OP_NOP));
                t.pushed_names = Some((0..400).map(|k| if k % 3 == 0 { None } else { Some(Cow::Owned(format!("n{}", k % 290))) }).collect());
                t.alt_pushed_names = Some((0..400).map(|k| if k % 5 == 0 { None } else { Some(Cow::Owned(format!("m{}", k))) }).collect());
                t.src_code = (0..400).map(|k| (k * 3, Cow::Owned(format!("let x{} = 1;", k)))).collect();
                tx.outputs.push(TxOutput { value: 1, script: Script::new(vec![t]) });
                "400 names and lines of one operation".to_string()
            }
            13 => {
                tx.inputs = gen_annotated(g, 2, 2).inputs;
                tx.inputs.push(TxInput::new(TxOutpoint { tx_hash: Sha256d::new([7; 32]), vout: 300 }, Script::new(vec![]), 70_000));
                for x in &mut tx.inputs {
                    x.sig_hash_flags = Some((0..300).map(|_| gen_flags(g)).collect());
                }
                "300 hash types".to_string()
            }
            14 => {
                let b = g.bytes(70_000);
                tx.outputs.push(TxOutput { value: 1, script: Script::from_ops(vec![Op::PushByteArray { array: ba(&b).named("long"), is_minimal: true }, Op::from_array(Sha256::digest(ba(&b)).into_byte_array())]) });
                "70000 bytes".to_string()
            }
            _ => {
                let mut t = tag(g, Op::Code(Opcode::OP_NOP));
                t.src_file = Cow::Owned("\u{4e2d}\"\n".repeat(30_000));
                tx.outputs.push(TxOutput { value: 1, script: Script::new(vec![t]) });
                "a string of 150000 bytes".to_string()
            }
        };
        c.class(what);
        round_trip(c, &tx)
    });
    // transactions as the library itself builds them: preimages and signatures as provenance
    ctx.phase("signed transactions", 25, 700, |g, c, _| {
        use super::c10::{gen_secret, init_ecc};
        let ecc = init_ecc();
        let n = g.range(1, 3);
        let mut b = TxBuilder::new_simple();
        let keys: Vec<[u8; 32]> = (0..n).map(|_| gen_secret(g)).collect();
        for k in &keys {
            let pubkey = ecc.derive_pubkey(k).map_err(|e| e.to_string())?;
            let value = 100_000 + g.below(1000) as u64;
            let flags = *g.pick(&[SigHashFlags::DEFAULT, SigHashFlags::DEFAULT | SigHashFlags::ANYONECANPAY]);
            b.add_input(
                UnsignedTxInput {
                    prev_out: TxOutpoint { tx_hash: Sha256d::new(g.arr32()), vout: g.edge_u32() },
                    sequence: g.edge_u32(),
                    value,
                },
                Address::from_pk("bitcoincash", &pubkey).p2pkh_script().map_err(|e| e.to_string())?,
                P2PKHSignatory { pubkey, sig_hash_flags: flags },
            );
        }
        let s: Script = Address::from_hash("bitcoincash", AddressType::P2SH, Hash160::digest(ba(b"named").named("n"))).into();
        b.add_output(TxOutput { value: 5_000, script: s });
        let u = b.build().map_err(|e| e.to_string())?;
        let mut sigs = vec![];
        for (p, k) in u.preimages().iter().zip(&keys) {
            let h = Sha256d::digest(p[0].ser());
            sigs.push(ecc.sign(k, h.into_byte_array()).map_err(|e| e.to_string())?);
        }
        let mut unsigned = u;
        for (i, s) in sigs.into_iter().enumerate() {
            unsigned.sign_input(InputReference::<P2PKHSignatory>::new(i), s).map_err(|e| e.to_string())?;
        }
        let tx = unsigned.complete_tx();
        round_trip(c, &tx)
    });
    ctx.exhaustive("nesting", 40, |g, c, i| {
        let n = [0usize, 1, 2, 10, 500, 900, 998, 999, 1000, 1000][(i % 10) as usize];
        let f = [Function::Plain, Function::Sha256, Function::EcdsaSign, Function::UnexpectedSplit][(i / 10) as usize];
        let mut tx = gen_annotated(g, 1, 2);
        tx.outputs.push(TxOutput { value: 1, script: Script::from_ops(vec![Op::from_array(chain(n, f)), Op::from_array(chain(n / 2, f))]) });
        c.class(format!("{} levels", n));
        round_trip(c, &tx)
    });
}

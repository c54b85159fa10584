//! C28 Provenance of any depth and any sharing is affordable: no operation exhausts the stack, memory stays proportionate
use super::util::*;
use crate::alloc::measured;
use crate::framework::*;
use crate::oracle::{compact, hash, hex};
use crate::prng::Gen;
use crate::{ensure, same};
use bitcoin_cash::*;
use std::collections::HashSet;
use std::hash::{Hash, Hasher as _};

/// every operation runs on a stack this small, on which any recursion along the provenance is fatal
const STACK: usize = 1 << 20;

fn small_stack<T: Send>(f: impl FnOnce() -> Result<T, String> + Send) -> Result<T, String> {
    std::thread::scope(|s| {
        let t = std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, f).map_err(|e| e.to_string())?;
        t.join().unwrap_or_else(|_| Err(last_panic()))
    })
}
fn std_hash(b: &ByteArray) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    b.hash(&mut h);
    h.finish()
}
/// one more function applied; the bytes it must have according to the oracle
fn step(g: &mut Gen, b: ByteArray, bytes: &[u8]) -> (ByteArray, Vec<u8>) {
    let named = g.chance(1, 8);
    let (r, v): (ByteArray, Vec<u8>) = match g.below(5) {
        0 => (Sha1::digest(b).into(), hash::sha1(bytes).to_vec()),
        1 => (Ripemd160::digest(b).into(), hash::ripemd160(bytes).to_vec()),
        2 => (Sha256::digest(b).into(), hash::sha256(bytes).to_vec()),
        3 => (Hash160::digest(b).into(), hash::hash160(bytes).to_vec()),
        _ => (Sha256d::digest(b).into(), hash::sha256d(bytes).to_vec()),
    };
    (if named { r.named(format!("n{}", g.below(9))) } else { r }, v)
}
fn tx_with(b: &[ByteArray]) -> UnhashedTx {
    UnhashedTx {
        version: 2,
        inputs: vec![],
        outputs: vec![TxOutput {
            value: 7,
            script: Script::new(b.iter().map(|x| TaggedOp::from_op(Op::PushByteArray { array: x.clone(), is_minimal: true })).collect::<Vec<_>>()),
        }],
        lock_time: 0,
    }
}
fn pushed(tx: &UnhashedTx, i: usize) -> Option<&ByteArray> {
    match &tx.outputs.get(0)?.script.ops_arc().get(i)?.op {
        Op::PushByteArray { array, .. } => Some(array),
        _ => None,
    }
}
type Id = (*const u8, usize, Option<*const u8>, String, Option<*const ByteArray>);
fn id(b: &ByteArray) -> Id {
    (b.data().as_ptr(), b.len(), b.name().map(|n| n.as_ptr()), format!("{:?}", b.function()), b.preimage().map(|p| p.as_ptr()))
}
/// distinct nodes reachable, without recursion
fn distinct_nodes(b: &ByteArray) -> usize {
    let mut seen: HashSet<Id> = HashSet::new();
    let mut todo = vec![b];
    while let Some(x) = todo.pop() {
        if seen.insert(id(x)) {
            todo.extend(x.preimage().unwrap_or(&[]).iter());
        }
    }
    seen.len()
}
/// same bytes, names, functions and preimages everywhere; each pair of nodes is compared once
fn same_provenance(a: &ByteArray, b: &ByteArray) -> Result<usize, String> {
    let mut seen: HashSet<(Id, Id)> = HashSet::new();
    let mut todo = vec![(a, b)];
    while let Some((x, y)) = todo.pop() {
        if !seen.insert((id(x), id(y))) {
            continue;
        }
        same!("bytes", hex(x), hex(y));
        same!("name", x.name(), y.name());
        same!("function", format!("{:?}", x.function()), format!("{:?}", y.function()));
        let (p, q) = (x.preimage(), y.preimage());
        same!("number of preimages", p.map(|p| p.len()), q.map(|q| q.len()));
        if let (Some(p), Some(q)) = (p, q) {
            todo.extend(p.iter().zip(q));
        }
    }
    Ok(seen.len())
}
/// each function's argument is listed and hashes to its bytes, each concatenation's parts join to it
fn truthful(b: &ByteArray) -> Result<usize, String> {
    let mut seen: HashSet<Id> = HashSet::new();
    let mut todo = vec![b];
    while let Some(x) = todo.pop() {
        if !seen.insert(id(x)) {
            continue;
        }
        if let Some(p) = x.preimage() {
            let arg: Vec<u8> = p.iter().flat_map(|q| q.to_vec()).collect();
            let want = match x.function() {
                Function::Plain => arg,
                Function::Sha1 => hash::sha1(&arg).to_vec(),
                Function::Ripemd160 => hash::ripemd160(&arg).to_vec(),
                Function::Sha256 => hash::sha256(&arg).to_vec(),
                Function::Hash256 => hash::sha256d(&arg).to_vec(),
                Function::Hash160 => hash::hash160(&arg).to_vec(),
                f => return Err(format!("unexpected function {:?}", f)),
            };
            same!("bytes of a node", hex(x), hex(&want));
            todo.extend(p);
        }
    }
    Ok(seen.len())
}

fn use_up(g: &mut Gen, c: &mut Case, b: ByteArray, bytes: &[u8], depth: usize) -> R {
    same!("bytes", hex(&b), hex(bytes));
    let nodes = distinct_nodes(&b);
    let copy = b.clone();
    ensure!(copy == b && std_hash(&copy) == std_hash(&b), "a clone differs");
    same!("shown", b.to_string(), hex(bytes));
    let at = g.below(bytes.len() + 1);
    let (l, r) = copy.clone().split(at).map_err(|e| e.to_string())?;
    same!("left", hex(&l), hex(&bytes[..at]));
    same!("right", hex(&r), hex(&bytes[at..]));
    drop((l, r));
    same!("json", serde_json::to_string(&b).map_err(|e| e.to_string())?, format!("\"{}\"", hex(bytes)));
    let tx = tx_with(&[b.clone(), copy]);
    let mut want = vec![bytes.len() as u8];
    want.extend(bytes);
    let want = [want.clone(), want].concat();
    same!("script bytes", hex(&tx.outputs[0].script.ser_ops()), hex(&want));
    ensure!(hex(&tx.ser()).contains(&hex(&want)), "the serialised transaction lacks the script");
    let hashed = tx.clone().hashed();
    ensure!(hashed.hash() == &Sha256d::digest(tx.ser()), "transaction id");
    drop(hashed);
    let (json, peak, _) = measured(|| tx_to_json(&tx));
    let json = json.map_err(|e| format!("export: {}", e))?;
    // two pushes of the same array: twice the nodes at the most
    let entries = 2 * nodes + 16;
    ensure!(json.len() <= 400 * entries, "the exported document has {} bytes for {} distinct parts", json.len(), nodes);
    ensure!(peak <= 4096 * entries + (64 << 10), "exporting {} distinct parts took {} bytes of memory", nodes, peak);
    let (back, peak, _) = measured(|| json_to_tx(&json));
    ensure!(peak <= 4096 * entries + (64 << 10), "importing {} distinct parts took {} bytes of memory", nodes, peak);
    match back {
        Ok(back) => {
            for i in 0..2 {
                let q = pushed(&back, i).ok_or("the import lost a push")?;
                same_provenance(&b, q).map_err(|e| format!("imported: {}", e))?;
                ensure!(distinct_nodes(q) <= nodes, "the import has more distinct parts than the original");
            }
            c.class("imported");
        }
        Err(e) => {
            ensure!(depth >= 1000, "provenance {} levels deep is not imported: {}", depth, e);
            c.class("too deep to import");
        }
    }
    c.saw(truthful(&b)? + 12);
    // the last owner may be the transaction, the array itself, or somebody on another thread
    match g.below(4) {
        0 => {
            drop(tx);
            drop(b);
        }
        1 => {
            drop(b);
            drop(tx);
        }
        2 => {
            drop(tx);
            small_stack(move || {
                drop(b);
                Ok(())
            })?;
        }
        _ => {
            let n = g.range(2, 6);
            let clones: Vec<_> = (0..n).map(|_| b.clone()).collect();
            drop((tx, b));
            let gate = std::sync::Barrier::new(n);
            std::thread::scope(|s| {
                for x in clones {
                    let gate = &gate;
                    std::thread::Builder::new()
                        .stack_size(STACK)
                        .spawn_scoped(s, move || {
                            gate.wait();
                            drop(x);
                        })
                        .unwrap();
                }
            });
            c.class("dropped by several threads at once");
        }
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    ctx.rule("byte strings whose provenance is a chain of 1..60000 functions (1000000 in the thorough tier) or a graph with shared parts, and lists of up to 4000 items (40000), used in every way on a stack of 1 MiB with the allocator counting; bytes, provenance and documents against the independent hashes; debug output, which is recursive by nature, is left out");
    let deep = if ctx.thorough() { 1_000_000 } else { 60_000 };
    ctx.phase("function chains", 64, 600, |g, c, i| {
        let depth = match i % 4 {
            0 => g.range(1, 60),
            1 => g.range(900, 1100),
            2 => g.range(5_000, 20_000),
            _ => g.range(deep / 2, deep),
        };
        let n = g.below(40);
        let start = g.bytes(n);
        c.input(format!("{} functions over {}", depth, hex(&start)));
        c.class(format!("depth 10^{}", (depth as f64).log10() as u32));
        let every = *g.pick(&[0usize, 0, 2, 3, 100]);
        let side = g.chance(1, 2);
        small_stack(move || {
            let mut b = ba(&start);
            let mut v = start;
            let mut levels = 0;
            for k in 0..depth {
                if every != 0 && k % every == 0 {
                    // a concatenation is a level of its own
                    let (x, y) = (ByteArray::new("salt", vec![k as u8]), vec![k as u8]);
                    if side {
                        b = b.concat(x);
                        v = [v, y].concat();
                    } else {
                        b = x.concat(b);
                        v = [y, v].concat();
                    }
                    levels += 1;
                }
                let r = step(g, b, &v);
                b = r.0;
                v = r.1;
                levels += 1;
            }
            use_up(g, c, b, &v, levels)
        })
    });
    ctx.phase("shared graphs", 120, 3000, |g, c, i| {
        let levels = match i % 3 {
            0 => g.range(2, 20),
            1 => g.range(20, 60),
            _ => g.range(200, 480),
        };
        let fan = g.range(2, 4);
        let reach = g.range(1, 4);
        c.input(format!("{} levels, each hashing up to {} of the {} before it, {:016x}", levels, fan, reach, g.clone().u64()));
        c.class(format!("fan-out {}", fan));
        small_stack(move || {
            let n = g.range(1, 40);
            let first = g.bytes(n);
            let mut nodes: Vec<(ByteArray, Vec<u8>)> = vec![(ba(&first), first)];
            for _ in 0..levels {
                let k = g.range(2, fan);
                let mut bytes = vec![];
                let mut parts = vec![];
                for _ in 0..k {
                    let at = nodes.len() - 1 - g.below(reach.min(nodes.len()));
                    parts.push(nodes[at].0.clone());
                    bytes.extend(&nodes[at].1);
                }
                let joined = ByteArray::from_parts(parts);
                let joined = if g.chance(1, 3) { joined.named("joined") } else { joined };
                let r = step(g, joined, &bytes);
                nodes.push(r);
            }
            let (b, v) = nodes.pop().unwrap();
            drop(nodes);
            use_up(g, c, b, &v, 2 * levels)
        })
    });
    ctx.phase("nested concatenations", 32, 400, |g, c, i| {
        let n = match i % 3 {
            0 => g.range(2, 40),
            1 => g.range(500, 1500),
            _ => g.range(3_000, 6_000),
        };
        let to_left = g.chance(1, 2);
        c.input(format!("{} one-byte function results joined one by one at the {}", n, if to_left { "left" } else { "right" }));
        c.class(format!("10^{} joined, {}", (n as f64).log10() as u32, to_left));
        small_stack(move || {
            let mut bytes = vec![];
            let mut b: Option<ByteArray> = None;
            for k in 0..n {
                // one byte each, so that thousands of levels stay small
                let v = (k % 127) as u8;
                let item = ByteArray::from_int(Integer::new(v as i32).unwrap(), Integer::new(1).unwrap()).map_err(|e| e.to_string())?;
                same!("a number in one byte", hex(&item), hex(&[v]));
                ensure!(item.function() == Function::Num2Bin, "function {:?}", item.function());
                b = Some(match b {
                    None => item,
                    Some(b) if to_left => item.concat(b),
                    Some(b) => b.concat(item),
                });
                bytes.push(v);
            }
            if to_left {
                bytes.reverse();
            }
            let b = b.unwrap();
            same!("bytes", hex(&b), hex(&bytes));
            let ats = [1, n - 1, g.below(n + 1)];
            for at in ats {
                let (l, r) = b.clone().split(at).map_err(|e| e.to_string())?;
                same!("left", hex(&l), hex(&bytes[..at]));
                same!("right", hex(&r), hex(&bytes[at..]));
                for h in [&l, &r] {
                    // every list of parts joins to its bytes
                    let mut todo = vec![h];
                    let mut seen = HashSet::new();
                    while let Some(x) = todo.pop() {
                        if x.function() == Function::Plain && seen.insert(id(x)) {
                            if let Some(p) = x.preimage() {
                                same!("joined parts", p.iter().flat_map(|q| q.to_vec()).collect::<Vec<_>>(), x.to_vec());
                                todo.extend(p);
                            }
                        }
                    }
                    c.saw(seen.len());
                }
            }
            let tx = tx_with(&[b]);
            match tx_to_json(&tx).map_err(|e| e.to_string()).and_then(|j| json_to_tx(&j).map_err(|e| e.to_string())) {
                Ok(back) => same!("bytes after export and import", hex(pushed(&back, 0).ok_or("the import lost the push")?), hex(&bytes)),
                Err(e) => ensure!(n >= 900, "{} joined parts are not imported: {}", n, e),
            }
            Ok(())
        })
    });
    let long = if ctx.thorough() { 12_000 } else { 4_000 };
    ctx.phase("long lists", 24, 400, |g, c, i| {
        let n = match i % 3 {
            0 => g.range(0, 40),
            1 => g.range(200, 1500),
            _ => g.range(long / 2, long),
        };
        let kind = g.below(4);
        let seed = g.u64();
        c.input(format!("{} items of kind {}, {:016x}", n, kind, seed));
        c.class(format!("10^{} items", (n.max(1) as f64).log10() as u32));
        small_stack(move || {
            let hashes: Vec<Sha256d> = (0..n).map(|k| Sha256d::digest([&seed.to_le_bytes()[..], &(k as u32).to_le_bytes()[..]].concat())).collect();
            let mut raw: Vec<Vec<u8>> = hashes.iter().map(|h| h.as_byte_array().to_vec()).collect();
            // a list of n small parts: what it takes may grow with n, not with its square
            let limit = 4096 * n + (64 << 10);
            macro_rules! list {
                ($t:ty, $v:expr) => {{
                    let v: Vec<$t> = $v;
                    let (b, peak, _) = measured(|| v.ser());
                    same!("bytes of the list", hex(&b), hex(&[compact(n as u64), raw.concat()].concat()));
                    ensure!(peak <= limit, "serialising {} items took {} bytes of memory", n, peak);
                    c.saw(truthful(&b)?);
                    let (back, peak, _) = measured(|| <Vec<$t>>::deser(b.clone()));
                    ensure!(peak <= 4 * limit, "decoding {} items took {} bytes of memory", n, peak);
                    ensure!(back.map_err(|e| format!("decoding the list: {}", e))? == v, "the decoded list differs");
                    drop(b);
                    let all = encode_bitcoin_code_all(&v);
                    same!("bytes of the items", hex(&all), hex(&raw.concat()));
                    let back = decode_bitcoin_code_all::<$t>(all).map_err(|e| format!("decoding the items: {}", e))?;
                    ensure!(back == v, "the decoded items differ");
                }};
            }
            match kind {
                0 => list!(Sha256d, hashes),
                1 => {
                    for (k, r) in raw.iter_mut().enumerate() {
                        r.extend(&(k as u32).to_le_bytes());
                    }
                    list!(TxOutpoint, hashes.into_iter().enumerate().map(|(k, tx_hash)| TxOutpoint { tx_hash, vout: k as u32 }).collect())
                }
                2 => {
                    raw.iter_mut().for_each(|r| r.insert(0, 32));
                    list!(ByteArray, hashes.into_iter().map(|h| h.into()).collect())
                }
                _ => {
                    let scripts: Vec<Script> = hashes
                        .into_iter()
                        .map(|h| Script::new(vec![TaggedOp::from_op(Op::PushByteArray { array: h.into(), is_minimal: true })]))
                        .collect();
                    raw.iter_mut().for_each(|r| {
                        r.insert(0, 32);
                        r.insert(0, 33);
                    });
                    let (b, peak, _) = measured(|| scripts.ser());
                    same!("bytes of the list", hex(&b), hex(&[compact(n as u64), raw.concat()].concat()));
                    ensure!(peak <= limit, "serialising {} scripts took {} bytes of memory", n, peak);
                    let back = <Vec<Script>>::deser(b).map_err(|e| e.to_string())?;
                    same!("number of scripts", back.len(), n);
                    ensure!(back.iter().zip(&scripts).all(|(a, b)| script_bytes(a) == script_bytes(b)), "the decoded scripts differ");
                    // one script of n pushes
                    let one = Script::new(scripts.iter().flat_map(|s| s.ops_arc().to_vec()).collect::<Vec<_>>());
                    let (b, peak, _) = measured(|| one.ser_ops());
                    same!("bytes of the script", hex(&b), raw.iter().map(|r| hex(&r[1..])).collect::<String>());
                    ensure!(peak <= limit, "serialising a script of {} pushes took {} bytes of memory", n, peak);
                    let back = Script::deser_ops(b).map_err(|e| e.to_string())?;
                    ensure!(back.ops_arc().len() == n, "the decoded script has {} operations", back.ops_arc().len());
                }
            }
            c.saw(6);
            Ok(())
        })
    });
}

//! C16 Hostile documents: annotated JSON, and any JSON or binary document for any serialisable type.
use super::c15::{deep_tx, gen_annotated};
use super::c22;
use super::util::*;
use crate::alloc::measured;
use crate::framework::*;
use crate::oracle::hex;
use crate::prng::Gen;
use crate::{ensure, same};
use bitcoin_cash::*;
use bitcoin_cash_slp::*;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};

fn pointers(v: &Value, at: String, out: &mut Vec<String>) {
    match v {
        Value::Array(a) => a.iter().enumerate().for_each(|(i, x)| pointers(x, format!("{}/{}", at, i), out)),
        Value::Object(o) => o.iter().for_each(|(k, x)| pointers(x, format!("{}/{}", at, k), out)),
        _ => (),
    }
    out.push(at);
}
fn weird(g: &mut Gen) -> Value {
    match g.below(22) {
        0 => json!(null),
        1 => json!(-1),
        2 => json!(u64::MAX),
        3 => json!(i64::MIN),
        4 => json!(1.5),
        5 => json!(1e300),
        6 => json!(""),
        7 => json!("A"),
        8 => json!("Sha256"),
        9 => json!([]),
        10 => json!({}),
        11 => json!([[[[]]]]),
        12 => json!(true),
        13 => json!(0x8000_0000u64),
        14 => json!(-0x8000_0000i64),
        15 => json!(0xffff_ffffu64),
        16 => json!(0x1_0000_0000u64),
        17 => json!(256),
        18 => json!({"PushByteArray": {"array_idx": 0, "is_minimal": true}}),
        19 => json!(0),
        20 => json!(g.below(40)),
        _ => json!(g.edge_u64()),
    }
}
fn mutate_value(g: &mut Gen, v: &mut Value) {
    let mut p = vec![];
    pointers(v, String::new(), &mut p);
    let a = g.pick(&p).clone();
    let other = v.pointer(g.pick(&p)).cloned();
    let idx = g.below(8);
    let w = weird(g);
    let t = match v.pointer_mut(&a) {
        Some(t) => t,
        None => return,
    };
    match (g.below(6), t) {
        (0, Value::Array(x)) if !x.is_empty() => {
            let k = idx % x.len();
            x.remove(k);
        }
        (1, Value::Array(x)) => {
            let n = x.len();
            let y = if n > 0 { x[idx % n].clone() } else { w };
            x.insert(idx % (n + 1), y);
        }
        (0, Value::Object(o)) | (1, Value::Object(o)) if !o.is_empty() => {
            let k = o.keys().nth(idx % o.len()).unwrap().clone();
            let x = o.remove(&k).unwrap();
            if g.chance(1, 2) {
                o.insert("other".into(), x);
            }
        }
        (2, t) => {
            if let Some(o) = other {
                *t = o
            }
        }
        (3, Value::String(s)) => {
            let mut b: Vec<char> = s.chars().collect();
            match g.below(4) {
                0 => b.push(*g.pick(&['A', '=', '0', 'f', '\u{e9}', ' '])),
                1 => {
                    b.pop();
                }
                2 if !b.is_empty() => {
                    let k = g.below(b.len());
                    b[k] = *g.pick(&['!', 'g', '0', 'Z', '\u{0}']);
                }
                _ => b.reverse(),
            }
            *s = b.into_iter().collect();
        }
        (_, Value::Number(n)) if g.chance(1, 2) => {
            let x = n.as_i64().unwrap_or(0);
            *n = (x.wrapping_add(g.below(5) as i64 - 2)).into();
        }
        (_, t) => *t = w,
    }
}
fn capped_weight(b: &ByteArray, left: &mut usize) {
    if *left == 0 {
        return;
    }
    *left -= 1;
    for p in b.preimage().unwrap_or(&[]) {
        capped_weight(p, left);
    }
}
fn expandable(t: &UnhashedTx) -> bool {
    let mut left = 20_000;
    for i in &t.inputs {
        capped_weight(i.prev_out.tx_hash.as_byte_array(), &mut left);
    }
    let scripts = t.inputs.iter().map(|i| &i.script).chain(t.inputs.iter().filter_map(|i| i.lock_script.as_ref())).chain(t.outputs.iter().map(|o| &o.script));
    for s in scripts {
        for o in s.ops().iter() {
            if let Op::PushByteArray { array, .. } = &o.op {
                capped_weight(array, &mut left);
            }
        }
    }
    left > 0
}
/// an import that must not crash; whatever is accepted must be a usable transaction
fn import(c: &mut Case, doc: &str) -> Result<Option<UnhashedTx>, String> {
    c.input(clip(doc, 6000));
    c.saw(1);
    let (r, peak, _) = measured(|| json_to_tx(doc));
    ensure!(peak <= (64 << 20) + 1000 * doc.len(), "importing a document of {} bytes needs {} bytes of memory", doc.len(), peak);
    match r {
        Err(e) => {
            c.class("refused");
            let _ = e.to_string();
            Ok(None)
        }
        Ok(t) => {
            c.class("accepted");
            let _ = t.ser();
            let _ = t.clone().hashed().hash().to_hex_le();
            if expandable(&t) {
                let d = tx_to_json(&t).map_err(|e| format!("imported transaction not exported: {}", e))?;
                let b = json_to_tx(&d).map_err(|e| format!("re-exported document refused: {}", e))?;
                deep_tx(&t, &b)?;
            }
            Ok(Some(t))
        }
    }
}
fn gen_doc(g: &mut Gen) -> Value {
    let (s, d) = *g.pick(&[(1usize, 2usize), (2, 3), (3, 2)]);
    let t = gen_annotated(g, s, d);
    serde_json::from_str(&tx_to_json(&t).unwrap()).unwrap()
}
fn ends_index(p: &str, key: &str) -> bool {
    // .../key/<number>
    let mut it = p.rsplitn(3, '/');
    let (last, before) = (it.next().unwrap_or(""), it.next().unwrap_or(""));
    before == key && last.parse::<usize>().is_ok()
}
/// one change after which the document has no valid meaning
fn breaking(g: &mut Gen, v: &mut Value) -> Option<&'static str> {
    let mut p = vec![];
    pointers(v, String::new(), &mut p);
    let len = |v: &Value, k: &str| v["data"][k].as_array().map_or(0, |a| a.len());
    let (nd, nb, ns) = (len(v, "data_b64"), len(v, "byte_arrays"), len(v, "strings"));
    let beyond = |g: &mut Gen, n: usize| match g.below(6) {
        0 => json!(u64::MAX),
        1 => json!(u32::MAX),
        2 => json!(n + 1 + g.below(1000)),
        _ => json!(n),
    };
    let parts = |s: &str| s.split('/').map(|x| x.to_string()).collect::<Vec<_>>();
    let numbers: Vec<String> = p.iter().filter(|x| v.pointer(x).map_or(false, |t| t.is_u64() || t.is_i64())).cloned().collect();
    let ba = |x: &String, depth: usize, field: &str| {
        let q = parts(x);
        q.len() == depth && q[1] == "data" && q[2] == "byte_arrays" && (field.is_empty() || q[4] == field)
    };
    let of = |f: &dyn Fn(&String) -> bool| -> Vec<String> { numbers.iter().filter(|x| f(x)).cloned().collect() };
    let pick = |g: &mut Gen, l: &Vec<String>| -> Option<String> {
        if l.is_empty() {
            None
        } else {
            Some(g.pick(l).clone())
        }
    };
    let set = |v: &mut Value, p: String, x: Value| *v.pointer_mut(&p).unwrap() = x;
    match g.below(13) {
        0 => {
            let l = of(&|x| ba(x, 4, "") || ba(x, 5, "0"));
            let p = pick(g, &l)?;
            set(v, p, beyond(g, nd));
            Some("data index out of range")
        }
        1 => {
            let l = of(&|x| ba(x, 5, "2"));
            let p = pick(g, &l)?;
            set(v, p, beyond(g, ns));
            Some("name index out of range")
        }
        2 => {
            let l = of(&|x| ba(x, 6, "3"));
            let p = pick(g, &l)?;
            let own: usize = parts(&p)[3].parse().unwrap();
            let (x, what) = match g.below(3) {
                0 => (json!(own), "byte array listing itself"),
                1 if own + 1 < nb => (json!(own + 1 + g.below(nb - own - 1)), "byte array listing a later one"),
                _ => (beyond(g, nb), "preimage index out of range"),
            };
            set(v, p, x);
            Some(what)
        }
        3 => {
            let l = of(&|x| x.ends_with("/array_idx") || x.ends_with("/prev_out_hash"));
            let p = pick(g, &l)?;
            set(v, p, beyond(g, nb));
            Some("byte array index out of range")
        }
        4 => {
            let l = of(&|x| x.ends_with("/src_file") || ends_index(x, "pushed_names") || ends_index(x, "alt_pushed_names") || (x.contains("/src_code/") && x.ends_with("/1")));
            let p = pick(g, &l)?;
            set(v, p, beyond(g, ns));
            Some("string index out of range")
        }
        5 => {
            let l = of(&|x| x.ends_with("/op/PushInteger"));
            let p = pick(g, &l)?;
            let x = g.pick(&[json!(-0x8000_0000i64), json!(0x8000_0000u64), json!(1u64 << 40), json!(1.5), json!("5"), json!(null), json!(i64::MIN)]).clone();
            set(v, p, x);
            Some("invalid integer")
        }
        6 => {
            let l: Vec<String> = p.iter().filter(|x| ends_index(x, "data_b64")).cloned().collect();
            let p = pick(g, &l)?;
            let s = v.pointer(&p)?.as_str()?.to_string();
            let x = match g.below(4) {
                0 => format!("{}!", s),
                1 => format!("{}A", s),
                2 => format!("\u{e9}{}", s),
                _ => format!("=={}", s),
            };
            set(v, p, json!(x));
            Some("invalid base64")
        }
        7 => {
            // an outpoint hash of the wrong length
            let l = of(&|x| x.ends_with("/prev_out_hash"));
            let p = pick(g, &l)?;
            let arrays = v["data"]["byte_arrays"].as_array()?;
            let wrong: Vec<usize> = arrays
                .iter()
                .enumerate()
                .filter(|(_, a)| {
                    let d = a.as_u64().or_else(|| a.get(0).and_then(|x| x.as_u64())).unwrap() as usize;
                    base64::decode(v["data"]["data_b64"][d].as_str().unwrap()).unwrap().len() != 32
                })
                .map(|x| x.0)
                .collect();
            if wrong.is_empty() {
                return None;
            }
            let x = json!(*g.pick(&wrong));
            set(v, p, x);
            Some("hash of wrong length")
        }
        8 => {
            let p = pick(g, &numbers)?;
            let x = g.pick(&[json!(-1), json!(i64::MIN), json!(0.5), json!("0"), json!([]), json!({}), json!(true)]).clone();
            // numbers that may be negative
            if (p == "/version" || p.ends_with("/PushInteger")) && x.is_i64() {
                return None;
            }
            // byte arrays have several forms, one of them is a list
            if ba(&p, 4, "") {
                return None;
            }
            set(v, p, x);
            Some("wrong type of number")
        }
        9 => {
            let l = of(&|x| x.ends_with("/prev_out_vout") || x.ends_with("/sequence") || x == "/lock_time" || x.ends_with("/src_line") || x.ends_with("/src_column") || x == "/version" || x.ends_with("/op/Code") || x.ends_with("/op/Invalid"));
            let p = pick(g, &l)?;
            let x = if p.contains("/op/") { json!(256 + g.below(1000)) } else { json!(0x1_0000_0000u64 + g.below(100) as u64) };
            set(v, p, x);
            Some("number too large")
        }
        10 => {
            let l: Vec<String> = p
                .iter()
                .filter(|x| {
                    let k = parts(x).pop().unwrap_or_default();
                    ["data", "version", "inputs", "outputs", "lock_time", "data_b64", "byte_arrays", "strings", "prev_out_hash", "prev_out_vout", "script", "sequence", "op", "src_file", "src_line", "src_code", "array_idx", "is_minimal"].contains(&k.as_str())
                })
                .cloned()
                .collect();
            let p = pick(g, &l)?;
            let (parent, k) = p.split_at(p.rfind('/')?);
            v.pointer_mut(parent)?.as_object_mut()?.remove(&k[1..]);
            Some("missing field")
        }
        11 => {
            let l: Vec<String> = p.iter().filter(|x| ba(x, 5, "1")).cloned().collect();
            let p = pick(g, &l)?;
            let x = g.pick(&[json!("Sha512"), json!(""), json!(null), json!(3), json!({"Plain": 1})]).clone();
            set(v, p, x);
            Some("unknown function")
        }
        _ => {
            let l: Vec<String> = p.iter().filter(|x| x.ends_with("/op")).cloned().collect();
            let p = pick(g, &l)?;
            let x = g.pick(&[json!({"Bogus": 1}), json!("Code"), json!(null), json!({"PushBoolean": 1}), json!({"PushByteArray": 0}), json!({})]).clone();
            set(v, p, x);
            Some("unknown operation")
        }
    }
}
/// a document whose top byte array has `levels` levels of provenance below it
fn tower(levels: usize, width: usize, list: bool) -> String {
    let mut a = vec!["0".to_string()];
    for i in 0..levels {
        let ix = vec![i.to_string(); width].join(",");
        a.push(format!("[0,\"Plain\",null,[{}]]", ix));
    }
    let top = a.len() - 1;
    let op = format!(
        "{{\"op\":{{\"PushByteArray\":{{\"array_idx\":{},\"is_minimal\":true}}}},\"src_file\":0,\"src_line\":0,\"src_column\":0,\"src_code\":[],\"pushed_names\":null,\"alt_pushed_names\":null}}",
        top
    );
    let ops = if list { format!("{},{}", op, op) } else { op };
    format!(
        "{{\"data\":{{\"data_b64\":[\"eA==\"],\"byte_arrays\":[{}],\"strings\":[\"f\"]}},\"version\":1,\"inputs\":[],\"outputs\":[{{\"value\":1,\"script\":[{}]}}],\"lock_time\":0}}",
        a.join(","),
        ops
    )
}
fn mutate_text(g: &mut Gen, s: &str) -> String {
    let mut b = s.as_bytes().to_vec();
    let n = g.range(1, 4);
    for _ in 0..n {
        let i = g.below(b.len() + 1);
        match g.below(7) {
            0 => b.truncate(i),
            1 if i < b.len() => b[i] = *g.pick(b"0123456789-+.eE\"[]{},:nulltrue \\\x00\xff"),
            2 => {
                let x = *g.pick(b"0123456789-\"[]{},:\\");
                b.insert(i, x)
            }
            3 if i < b.len() => {
                b.remove(i);
            }
            4 if i < b.len() => {
                let j = (i + g.below(40)).min(b.len());
                let t = b[i..j].to_vec();
                let k = g.below(b.len());
                for (o, x) in t.into_iter().enumerate() {
                    b.insert(k + o, x);
                }
            }
            5 if i < b.len() => b[i] ^= 1 << g.below(8),
            _ => {
                let k = *g.pick(&[2usize, 60, 130, 3000]);
                let x = *g.pick(&["[", "{\"data\":", "-", "9", "[[0,"]);
                let t = x.repeat(k);
                b.splice(i..i, t.into_bytes());
            }
        }
    }
    String::from_utf8_lossy(&b).into_owned()
}
fn json_type<T: DeserializeOwned + Serialize>(g: &mut Gen, c: &mut Case, what: &str, valid: &T) -> R {
    let mut v = serde_json::to_value(valid).map_err(|e| e.to_string())?;
    let n = g.range(1, 3);
    for _ in 0..n {
        mutate_value(g, &mut v);
    }
    let mut doc = v.to_string();
    if g.chance(1, 3) {
        doc = mutate_text(g, &doc);
    }
    c.input(format!("{} from JSON {}", what, clip(&doc, 2000)));
    c.saw(1);
    c.class(what);
    let (r, peak, _) = measured(|| serde_json::from_str::<T>(&doc));
    ensure!(peak <= (64 << 20) + 1000 * doc.len(), "{} bytes of memory for {} bytes of JSON", peak, doc.len());
    if let Ok(x) = r {
        c.class("accepted");
        serde_json::to_string(&x).map_err(|e| format!("{} accepted from {} but not serialised: {}", what, clip(&doc, 500), e))?;
        bincode::serialize(&x).map_err(|e| format!("accepted {} not serialised: {}", what, e))?;
    }
    Ok(())
}
/// `T` may borrow from the document
fn mutate_bytes(g: &mut Gen, b: &mut Vec<u8>) {
    let n = g.range(1, 3);
    for _ in 0..n {
        let i = g.below(b.len() + 1);
        match g.below(8) {
            0 => b.truncate(i),
            1 => {
                let x = g.u8();
                b.insert(i, x)
            }
            2 | 3 if i < b.len() => b[i] = *g.pick(&[0, 1, 2, 0x20, 0x21, 0x7f, 0x80, 0xfd, 0xfe, 0xff]),
            4 if i + 8 <= b.len() => {
                let x = *g.pick(&[0u64, 1, 20, 32, 33, 1 << 31, 1 << 32, 1 << 62, u64::MAX, 0xffff]);
                b[i..i + 8].copy_from_slice(&x.to_le_bytes());
            }
            5 => {
                let k = g.below(20);
                b.extend(g.bytes(k))
            }
            6 if i < b.len() => {
                b.remove(i);
            }
            _ => {
                let k = g.below(80);
                if g.chance(1, 4) {
                    *b = g.bytes(k)
                }
            }
        }
    }
}
fn binary_type<T>(g: &mut Gen, c: &mut Case, what: &str, valid: &T, de: impl Fn(&[u8]) -> Option<T>) -> R
where
    T: Serialize,
{
    let mut b = bincode::serialize(valid).map_err(|e| e.to_string())?;
    mutate_bytes(g, &mut b);
    c.input(format!("{} from {}", what, hex(&b[..b.len().min(1500)])));
    c.saw(1);
    c.class(what);
    let (r, peak, _) = measured(|| de(&b));
    ensure!(peak <= (64 << 20) + 1000 * b.len(), "{} bytes of memory for {} bytes", peak, b.len());
    if let Some(x) = r {
        c.class("accepted");
        bincode::serialize(&x).map_err(|e| format!("accepted {} not serialised: {}", what, e))?;
        serde_json::to_string(&x).map_err(|e| format!("accepted {} not serialised: {}", what, e))?;
    }
    Ok(())
}
macro_rules! each_type {
    ($g:expr, $i:expr, $m:ident) => {
        match $i % 24 {
            0 => $m!("UnhashedTx", UnhashedTx, c22::utx($g)),
            1 => $m!("Tx", Tx, c22::utx($g).hashed()),
            2 => $m!("TxInput", TxInput, c22::input($g)),
            3 => $m!("TxOutput", TxOutput, c22::output($g)),
            4 => $m!("TxOutpoint", TxOutpoint, c22::outpoint($g)),
            5 => $m!("Script", Script, c22::script($g)),
            6 => $m!("ByteArray", ByteArray, c22::bytes($g)),
            7 => $m!("Sha1", Sha1, Sha1::new($g.arr20())),
            8 => $m!("Ripemd160", Ripemd160, Ripemd160::new($g.arr20())),
            9 => $m!("Sha256", Sha256, Sha256::new($g.arr32())),
            10 => $m!("Sha256d", Sha256d, Sha256d::new($g.arr32())),
            11 => $m!("Hash160", Hash160, Hash160::new($g.arr20())),
            12 => $m!("Pubkey", Pubkey, c22::pubkey($g)),
            13 => $m!("Address", Address<'static>, c22::address($g)),
            14 => $m!("Integer", Integer, c22::integer($g)),
            15 => $m!("UInteger", UInteger, c22::uinteger($g)),
            16 => $m!("UnsignedTxInput", UnsignedTxInput, c22::unsigned_input($g)),
            17 => $m!("TokenId", TokenId, TokenId::from_hash(Sha256d::new($g.arr32()))),
            18 => $m!("SlpTx", SlpTx, c22::slp_tx($g)),
            19 => $m!("SlpUtxo", SlpUtxo, c22::slp_utxo($g)),
            20 => $m!("TokenMeta", TokenMeta, c22::token_meta($g)),
            21 => $m!("SlpToken", SlpToken, c22::slp_token($g)),
            22 => $m!("FixedByteArray", FixedByteArrayBE<[u8; 4]>, FixedByteArrayBE::<[u8; 4]>::from_slice_unnamed(&$g.bytes(4)).unwrap()),
            _ => $m!("SigHashFlags", SigHashFlags, super::c15::gen_flags($g)),
        }
    };
}
/// values of the wrong size, range or alphabet that must be refused
fn refused(g: &mut Gen, c: &mut Case) -> R {
    c.saw(1);
    fn js<T: DeserializeOwned>(c: &mut Case, what: &str, v: Value) -> R {
        let s = v.to_string();
        c.input(format!("{} {}", what, s));
        c.class(what);
        ensure!(serde_json::from_str::<T>(&s).is_err(), "{} accepted: {}", what, s);
        Ok(())
    }
    let not = |g: &mut Gen, n: usize| {
        let m = *g.pick(&[0usize, 1, n - 1, n + 1, 2 * n, 300]);
        hex(&g.bytes(m))
    };
    let bad_hex = |g: &mut Gen, n: usize| {
        let mut h: Vec<char> = hex(&g.bytes(n)).chars().collect();
        let i = g.below(h.len());
        match g.below(3) {
            0 => h[i] = *g.pick(&['g', ' ', '-', '\u{e9}', 'x']),
            1 => {
                h.remove(i);
            }
            _ => h.insert(i, '0'),
        }
        h.into_iter().collect::<String>()
    };
    match g.below(13) {
        0 => {
            let v = not(g, 32);
            js::<Sha256d>(c, "32-byte hash of another length", json!(v))
        }
        1 => {
            let v = not(g, 20);
            js::<Hash160>(c, "20-byte hash of another length", json!(v))
        }
        2 => {
            let v = not(g, 33);
            js::<Pubkey>(c, "public key of another length", json!(v))
        }
        3 => {
            let v = bad_hex(g, 33);
            js::<Pubkey>(c, "public key in bad hex", json!(v))
        }
        4 => {
            let v = bad_hex(g, 32);
            js::<Sha256>(c, "hash in bad hex", json!(v))
        }
        5 => {
            let n = g.range(1, 20);
            let v = bad_hex(g, n);
            js::<ByteArray>(c, "bytes in bad hex", json!(v))
        }
        6 => {
            let v = g.pick(&[json!(-0x8000_0000i64), json!(0x8000_0000u64), json!(u64::MAX), json!(1.0), json!("1"), json!(i64::MIN), json!(true)]).clone();
            js::<Integer>(c, "integer out of range", v)
        }
        7 => {
            let v = g.pick(&[json!(-1), json!(-0x8000_0000i64), json!(0x8000_0000u64), json!(u64::MAX), json!("1")]).clone();
            js::<UInteger>(c, "unsigned integer out of range", v)
        }
        8 => {
            // a script cut inside its last push
            let n = g.range(2, 70);
            let mut s = vec![n as u8 + 1, n as u8];
            s.extend(g.bytes(n - 1));
            let v = if g.chance(1, 2) { hex(&s[1..]) } else { let mut t = s.clone(); t[0] = n as u8; hex(&t) };
            js::<Script>(c, "cut script", json!(v))
        }
        9 => {
            let v = c22::address(g).cash_addr().to_string();
            let mut b = v.into_bytes();
            let i = b.len() - 1 - g.below(40);
            b[i] = if b[i] == b'q' { b'p' } else { b'q' };
            js::<Address>(c, "address with a wrong character", json!(String::from_utf8(b).unwrap()))
        }
        10 => {
            // binary public keys carry a length
            let n = *g.pick(&[0usize, 1, 32, 34, 65]);
            let b = bincode::serialize(&g.bytes(n)).unwrap();
            c.input(format!("Pubkey from {}", hex(&b)));
            c.class("binary public key of another length");
            ensure!(bincode::deserialize::<Pubkey>(&b).is_err(), "public key of {} bytes accepted", n);
            Ok(())
        }
        11 => {
            // binary integers out of range
            let v = i32::MIN;
            let b = bincode::serialize(&v).unwrap();
            c.input(format!("Integer from {}", hex(&b)));
            c.class("binary integer out of range");
            ensure!(bincode::deserialize::<Integer>(&b).is_err(), "{} accepted", v);
            Ok(())
        }
        _ => {
            // cut binary documents
            macro_rules! cut {
                ($n:expr, $t:ty, $v:expr) => {{
                    let b = bincode::serialize(&$v).unwrap();
                    let k = g.below(b.len());
                    c.input(format!("{} from {}", $n, hex(&b[..k])));
                    c.class("cut binary document");
                    ensure!(bincode::deserialize::<$t>(&b[..k]).is_err(), "{} accepted without its end", $n);
                    Ok(())
                }};
            }
            let i = g.below(24);
            each_type!(g, i, cut)
        }
    }
}
pub fn run(ctx: &mut Ctx) {
    ctx.rule("exported documents with one meaning-destroying change (must be refused), arbitrary changes of values and text, deep and wide provenance, and mutated JSON and binary documents for 24 serialisable types; panics, stack exhaustion, memory and unusable results are watched");
    ctx.phase("broken documents", 12_000, 400_000, |g, c, _| {
        let mut v = gen_doc(g);
        let doc = v.to_string();
        // the unbroken one is fine
        ensure!(json_to_tx(&doc).is_ok(), "valid document refused");
        for _ in 0..20 {
            if let Some(what) = breaking(g, &mut v) {
                let doc = v.to_string();
                c.class(what);
                return match import(c, &doc)? {
                    None => Ok(()),
                    Some(_) => Err(format!("document with {} accepted", what)),
                };
            }
        }
        c.trivial();
        Ok(())
    });
    ctx.phase("changed values", 15_000, 500_000, |g, c, _| {
        let mut v = gen_doc(g);
        let n = g.range(1, 3);
        for _ in 0..n {
            mutate_value(g, &mut v);
        }
        import(c, &v.to_string()).map(|_| ())
    });
    ctx.phase("changed text", 12_000, 400_000, |g, c, _| {
        let d = gen_doc(g).to_string();
        let d = mutate_text(g, &d);
        import(c, &d).map(|_| ())
    });
    let deep = [0usize, 1, 999, 1000, 1001, 1002, 1500, 5_000, 50_000, 200_000];
    ctx.exhaustive("nesting", deep.len() as u64 * 4, |_, c, i| {
        let n = deep[(i / 4) as usize];
        let (width, list) = ([1, 2][(i % 2) as usize], i % 4 >= 2);
        let d = tower(n, width, list);
        c.class(format!("{} levels", n));
        match import(c, &d)? {
            Some(_) => same!("deepest accepted nesting within the limit", n <= 1000, true),
            None => same!("deepest refused nesting beyond the limit", n > 1000, true),
        }
        Ok(())
    });
    ctx.phase("JSON of every type", 24_000, 800_000, |g, c, i| {
        macro_rules! m {
            ($n:expr, $t:ty, $v:expr) => {{
                let v: $t = $v;
                json_type::<$t>(g, c, $n, &v)
            }};
        }
        each_type!(g, i, m)
    });
    ctx.phase("binary of every type", 24_000, 800_000, |g, c, i| {
        macro_rules! m {
            ($n:expr, $t:ty, $v:expr) => {{
                let v: $t = $v;
                binary_type::<$t>(g, c, $n, &v, |b| bincode::deserialize(b).ok())
            }};
        }
        each_type!(g, i, m)
    });
    ctx.phase("values that must be refused", 12_000, 400_000, |g, c, _| refused(g, c));
    let _ = ba;
}

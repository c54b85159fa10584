//! C22 serde round trips in JSON and a compact binary format.
use super::c12::{gen_hash, gen_prefix, ty};
use super::c15::{gen_flags, text};
use super::util::*;
use crate::framework::*;
use crate::oracle::{cashaddr, hex, rev, script as oscript};
use crate::prng::Gen;
use crate::{ensure, same};
use bitcoin_cash::*;
use bitcoin_cash_slp::*;
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::fmt::Debug;

/// a script in the form decoding gives it
pub fn script(g: &mut Gen) -> Script {
    let t = oscript::gen_script(g, 6, false, true);
    Script::from_ops(ops_of(&oscript::encode(&t)))
}
pub fn bytes(g: &mut Gen) -> ByteArray {
    let n = g.edge_len(true);
    g.bytes(n).into()
}
pub fn outpoint(g: &mut Gen) -> TxOutpoint {
    TxOutpoint { tx_hash: Sha256d::new(g.arr32()), vout: g.edge_u32() }
}
pub fn input(g: &mut Gen) -> TxInput {
    let n = g.below(4);
    TxInput {
        prev_out: outpoint(g),
        script: script(g),
        sequence: g.edge_u32(),
        lock_script: if g.chance(1, 2) { Some(script(g)) } else { None },
        value: if g.chance(1, 2) { Some(g.edge_u64()) } else { None },
        is_p2sh: if g.chance(1, 2) { Some(g.chance(1, 2)) } else { None },
        sig_hash_flags: if g.chance(1, 2) { Some((0..n).map(|_| gen_flags(g)).collect()) } else { None },
    }
}
pub fn output(g: &mut Gen) -> TxOutput {
    TxOutput { value: g.edge_u64(), script: script(g) }
}
pub fn utx(g: &mut Gen) -> UnhashedTx {
    let (i, o) = (g.below(4), g.below(4));
    UnhashedTx { version: g.edge_u32() as i32, inputs: (0..i).map(|_| input(g)).collect(), outputs: (0..o).map(|_| output(g)).collect(), lock_time: g.edge_u32() }
}
pub fn pubkey(g: &mut Gen) -> Pubkey {
    Pubkey::from_slice(&g.bytes(33))
}
pub fn address(g: &mut Gen) -> Address<'static> {
    let p = gen_prefix(g);
    Address::from_hash(p, ty(g.chance(1, 2)), Hash160::new(gen_hash(g)))
}
pub fn integer(g: &mut Gen) -> Integer {
    Integer::new(g.edge_i32()).unwrap()
}
pub fn uinteger(g: &mut Gen) -> UInteger {
    UInteger::new(g.edge_i32().abs()).unwrap()
}
pub fn unsigned_input(g: &mut Gen) -> UnsignedTxInput {
    UnsignedTxInput { prev_out: outpoint(g), sequence: g.edge_u32(), value: g.edge_u64() }
}
const ACTIONS: [SlpAction; 12] = [
    SlpAction::NonSlp,
    SlpAction::NonSlpBurn,
    SlpAction::SlpParseError,
    SlpAction::SlpUnsupportedVersion,
    SlpAction::SlpV1Genesis,
    SlpAction::SlpV1Mint,
    SlpAction::SlpV1Send,
    SlpAction::SlpNft1GroupGenesis,
    SlpAction::SlpNft1GroupMint,
    SlpAction::SlpNft1GroupSend,
    SlpAction::SlpNft1UniqueChildGenesis,
    SlpAction::SlpNft1UniqueChildSend,
];
pub fn slp_token(g: &mut Gen) -> SlpToken {
    SlpToken { amount: g.edge_u64(), is_mint_baton: g.chance(1, 2), action: *g.pick(&ACTIONS) }
}
pub fn slp_data(g: &mut Gen) -> Option<SlpData> {
    if g.chance(1, 2) {
        Some(SlpData { token_id: TokenId::from_hash(Sha256d::new(g.arr32())) })
    } else {
        None
    }
}
pub fn slp_tx(g: &mut Gen) -> SlpTx {
    let (i, o) = (g.below(4), g.below(4));
    SlpTx {
        version: g.edge_u32() as i32,
        inputs: (0..i).map(|k| SlpTxInput { index: if g.chance(1, 3) { g.edge_u32() as usize } else { k }, token: slp_token(g), input: input(g), prev_script: script(g) }).collect(),
        outputs: (0..o).map(|_| SlpTxOutput { token: slp_token(g), output: output(g) }).collect(),
        lock_time: g.edge_u32(),
        slp_data: slp_data(g),
        tx_hash: Sha256d::new(g.arr32()),
    }
}
pub fn slp_utxo(g: &mut Gen) -> SlpUtxo {
    SlpUtxo { input: unsigned_input(g), slp_token: slp_token(g), slp_data: slp_data(g) }
}
pub fn token_meta(g: &mut Gen) -> TokenMeta {
    let n = g.below(40);
    TokenMeta {
        ticker: text(g),
        name: text(g),
        document_url: text(g),
        document_hash: g.bytes(n),
        decimals: g.u8(),
        slp_token_type: *g.pick(&[SlpTokenType::Fungible, SlpTokenType::Nft1Child, SlpTokenType::Nft1Group]),
    }
}
/// a value of `T` through both formats; `eq` is the library's or a field-wise equality
fn both<T: Serialize + DeserializeOwned + Debug>(c: &mut Case, v: &T, eq: impl Fn(&T, &T) -> bool) -> std::result::Result<serde_json::Value, String> {
    both_with(c, v, |a, b| eq(a, b) && format!("{:?}", a) == format!("{:?}", b))
}
fn both_with<T: Serialize + DeserializeOwned + Debug>(c: &mut Case, v: &T, eq: impl Fn(&T, &T) -> bool) -> std::result::Result<serde_json::Value, String> {
    let j = serde_json::to_value(v).map_err(|e| format!("to JSON: {}", e))?;
    let text = serde_json::to_string(v).map_err(|e| format!("to JSON text: {}", e))?;
    c.input(format!("{} {:?}", clip(&text, 6000), v).chars().take(12000).collect::<String>());
    let j2: serde_json::Value = serde_json::from_str(&text).map_err(|e| e.to_string())?;
    if j != j2 {
        return Err("JSON text and value differ".into());
    }
    let a: T = serde_json::from_str(&text).map_err(|e| format!("from JSON text {}: {}", text, e))?;
    let b: T = serde_json::from_value(j.clone()).map_err(|e| format!("from JSON value {}: {}", text, e))?;
    let rd: T = serde_json::from_reader(text.as_bytes()).map_err(|e| format!("from JSON reader {}: {}", text, e))?;
    for (x, how) in [(&a, "JSON text"), (&b, "JSON value"), (&rd, "JSON reader")].iter() {
        if !eq(x, v) {
            return Err(format!("through {}: got {:?}, expected {:?} ({})", how, x, v, text));
        }
        let again = serde_json::to_string(x).map_err(|e| e.to_string())?;
        if again != text {
            return Err(format!("serialised again: {} instead of {}", again, text));
        }
    }
    binary(v, &eq)?;
    c.saw(6);
    Ok(j)
}
fn binary<T: Serialize + DeserializeOwned + Debug>(v: &T, eq: &impl Fn(&T, &T) -> bool) -> R {
    let b = bincode::serialize(v).map_err(|e| format!("to binary: {}", e))?;
    let x: T = bincode::deserialize(&b).map_err(|e| format!("from binary {}: {}", hex(&b), e))?;
    ensure!(eq(&x, v), "through the binary form {}: got {:?}, expected {:?}", hex(&b), x, v);
    same!("binary form again", hex(&bincode::serialize(&x).map_err(|e| e.to_string())?), hex(&b));
    Ok(())
}
fn js(s: impl Into<String>) -> serde_json::Value {
    serde_json::Value::String(s.into())
}
fn script_json(s: &Script) -> serde_json::Value {
    let b = script_bytes(s);
    let mut w = crate::oracle::compact(b.len() as u64);
    w.extend(b);
    js(hex(&w))
}
fn input_eq(a: &TxInput, b: &TxInput) -> bool {
    a == b
        && script_bytes(&a.script) == script_bytes(&b.script)
        && a.lock_script.as_ref().map(script_bytes) == b.lock_script.as_ref().map(script_bytes)
        && a.value == b.value
        && a.is_p2sh == b.is_p2sh
        && a.sig_hash_flags == b.sig_hash_flags
        && a.sequence == b.sequence
        && a.prev_out == b.prev_out
}
fn output_eq(a: &TxOutput, b: &TxOutput) -> bool {
    a == b && script_bytes(&a.script) == script_bytes(&b.script)
}
fn utx_eq(a: &UnhashedTx, b: &UnhashedTx) -> bool {
    a == b
        && a.inputs.len() == b.inputs.len()
        && a.outputs.len() == b.outputs.len()
        && a.inputs.iter().zip(&b.inputs).all(|(a, b)| input_eq(a, b))
        && a.outputs.iter().zip(&b.outputs).all(|(a, b)| output_eq(a, b))
}
macro_rules! documented {
    ($what:expr, $j:expr, $want:expr) => {
        same!(concat!("documented JSON form of ", $what), $j, $want)
    };
}
fn input_json(j: &serde_json::Value, i: &TxInput) -> R {
    documented!("an input's outpoint hash", j["prevOut"]["txHash"], js(hex(&rev(i.prev_out.tx_hash.as_slice()))));
    same!("vout", j["prevOut"]["vout"], serde_json::json!(i.prev_out.vout));
    same!("sequence", j["sequence"], serde_json::json!(i.sequence));
    documented!("an input's script", j["script"], script_json(&i.script));
    Ok(())
}
fn hash_case<H: Hashed + Serialize + DeserializeOwned>(c: &mut Case, h: H) -> R {
    let j = both(c, &h, |a, b| a == b)?;
    documented!("a hash", j, js(hex(&rev(h.as_slice()))));
    Ok(())
}
fn case(g: &mut Gen, c: &mut Case, i: u64) -> R {
    c.class(format!("kind {:02}", i % 24));
    match i % 24 {
        23 => {
            let b = g.arr20();
            let v = FixedByteArrayBE::<[u8; 20]>::from_slice_unnamed(&b).map_err(|e| e.to_string())?;
            let j = both(c, &v, |a, b| a.as_byte_array() == b.as_byte_array())?;
            documented!("a fixed byte string", j, js(hex(&b)));
            let v = FixedByteArrayLE::<[u8; 20]>::from_slice_unnamed(&b).map_err(|e| e.to_string())?;
            let j = both(c, &v, |a, b| a.as_byte_array() == b.as_byte_array())?;
            documented!("a reversed fixed byte string", j, js(hex(&rev(&b))));
        }
        0 => {
            let v = bytes(g);
            let j = both_bytes(c, &v)?;
            documented!("a byte string", j, js(hex(&v)));
        }
        1 => hash_case(c, Sha1::new(g.arr20()))?,
        2 => hash_case(c, Ripemd160::new(g.arr20()))?,
        3 => hash_case(c, Sha256::new(g.arr32()))?,
        4 => hash_case(c, Sha256d::new(g.arr32()))?,
        5 => hash_case(c, Hash160::new(g.arr20()))?,
        6 => {
            let v = script(g);
            let j = both(c, &v, |a, b| a == b && script_bytes(a) == script_bytes(b))?;
            documented!("a script", j, script_json(&v));
        }
        7 => {
            let v = outpoint(g);
            let j = both(c, &v, |a, b| a == b)?;
            documented!("an outpoint", j["txHash"], js(hex(&rev(v.tx_hash.as_slice()))));
            same!("vout", j["vout"], serde_json::json!(v.vout));
        }
        8 => {
            let v = input(g);
            let j = both(c, &v, input_eq)?;
            input_json(&j, &v)?;
        }
        9 => {
            let v = output(g);
            let j = both(c, &v, output_eq)?;
            same!("value", j["value"], serde_json::json!(v.value));
            documented!("an output's script", j["script"], script_json(&v.script));
        }
        10 | 11 => {
            let v = utx(g);
            let j = both(c, &v, utx_eq)?;
            same!("inputs listed", j["inputs"].as_array().map(|a| a.len()), Some(v.inputs.len()));
            for (a, b) in j["inputs"].as_array().unwrap().iter().zip(&v.inputs) {
                input_json(a, b)?;
            }
        }
        12 => {
            let v = utx(g).hashed();
            // a hashed transaction's Debug form shows how its bytes came about, which is not serialised
            both_with(c, &v, |a, b| {
                a.hash() == b.hash()
                    && a.raw().as_slice() == b.raw().as_slice()
                    && a.version() == b.version()
                    && a.lock_time() == b.lock_time()
                    && a.inputs().len() == b.inputs().len()
                    && a.outputs().len() == b.outputs().len()
                    && a.inputs().iter().zip(b.inputs()).all(|(a, b)| input_eq(a, b))
                    && a.outputs().iter().zip(b.outputs()).all(|(a, b)| output_eq(a, b))
            })?;
        }
        13 => {
            let v = pubkey(g);
            let j = both(c, &v, |a, b| a == b)?;
            documented!("a public key", j, js(hex(v.as_slice())));
        }
        14 if g.chance(1, 3) => {
            // the text an address was read from is part of it
            let canon = address(g).cash_addr().to_string();
            let text = match g.below(4) {
                0 => canon.to_uppercase(),
                1 if canon.starts_with("bitcoincash:") => canon[12..].to_string(),
                2 if canon.starts_with("bitcoincash:") => canon[12..].to_uppercase(),
                _ => canon.clone(),
            };
            let v = Address::from_cash_addr(text.clone()).map_err(|e| format!("{} not decoded: {}", text, e))?;
            c.class(if text == canon { "address read from canonical text" } else { "address read from other text" });
            let j = serde_json::to_string(&v).map_err(|e| e.to_string())?;
            c.input(j.clone());
            let a: Address<'static> = serde_json::from_str(&j).map_err(|e| format!("from JSON text {}: {}", j, e))?;
            ensure!(a == v && a.cash_addr() == text, "through JSON text: got {:?}, expected {:?}", a, v);
            c.saw(2);
            binary(&v, &|a: &Address<'static>, b: &Address<'static>| a.hash() == b.hash() && a.addr_type() == b.addr_type() && a.prefix_str() == b.prefix_str() && a.prefix_kind() == b.prefix_kind())?;
            let x: Address<'static> = bincode::deserialize(&bincode::serialize(&v).unwrap()).unwrap();
            if x != v {
                ensure!(text != canon && x.cash_addr() == canon, "through the binary form: got {:?}, expected {:?}", x, v);
                c.known("address-text: an address read from upper-case or prefix-less text comes back from the binary form with the canonical text and compares unequal");
            }
        }
        14 => {
            let v = address(g);
            let j = both(c, &v, |a, b| a == b)?;
            let h: [u8; 20] = {
                let mut h = [0; 20];
                h.copy_from_slice(v.hash().as_slice());
                h
            };
            documented!("an address", j, js(cashaddr::encode(v.prefix_str(), v.addr_type() == AddressType::P2SH, &h)));
        }
        15 => {
            let v = integer(g);
            let j = both(c, &v, |a, b| a.value() == b.value())?;
            documented!("an integer", j, serde_json::json!(v.value()));
        }
        16 => {
            let v = uinteger(g);
            let j = both(c, &v, |a, b| a.value() == b.value())?;
            documented!("an unsigned integer", j, serde_json::json!(v.value()));
        }
        17 => {
            let v = unsigned_input(g);
            let j = both(c, &v, |a, b| a.prev_out == b.prev_out && a.sequence == b.sequence && a.value == b.value)?;
            same!("value", j["value"], serde_json::json!(v.value));
        }
        18 => {
            let v = slp_token(g);
            both(c, &v, |a, b| a == b)?;
        }
        19 => {
            let v = slp_tx(g);
            both(c, &v, |a, b| {
                a.version == b.version
                    && a.lock_time == b.lock_time
                    && a.tx_hash == b.tx_hash
                    && a.inputs.len() == b.inputs.len()
                    && a.outputs.len() == b.outputs.len()
                    && a.slp_data.as_ref().map(|d| d.token_id.clone()) == b.slp_data.as_ref().map(|d| d.token_id.clone())
                    && a.inputs.iter().zip(&b.inputs).all(|(a, b)| a.index == b.index && a.token == b.token && input_eq(&a.input, &b.input) && script_bytes(&a.prev_script) == script_bytes(&b.prev_script))
                    && a.outputs.iter().zip(&b.outputs).all(|(a, b)| a.token == b.token && output_eq(&a.output, &b.output))
            })?;
        }
        20 => {
            let v = slp_utxo(g);
            both(c, &v, |a, b| {
                a.input.prev_out == b.input.prev_out
                    && a.input.sequence == b.input.sequence
                    && a.input.value == b.input.value
                    && a.slp_token == b.slp_token
                    && a.slp_data.as_ref().map(|d| d.token_id.clone()) == b.slp_data.as_ref().map(|d| d.token_id.clone())
            })?;
        }
        21 => {
            let v = token_meta(g);
            both(c, &v, |a, b| {
                a.ticker == b.ticker
                    && a.name == b.name
                    && a.document_url == b.document_url
                    && a.document_hash == b.document_hash
                    && a.decimals == b.decimals
                    && a.slp_token_type as u8 == b.slp_token_type as u8
            })?;
        }
        _ => {
            let v = TokenId::from_hash(Sha256d::new(g.arr32()));
            let j = both(c, &v, |a, b| a == b)?;
            documented!("a token id", j, js(hex(&v.to_vec())));
        }
    }
    Ok(())
}
/// ByteArray reads its binary form in place, so it has its own path
fn both_bytes(c: &mut Case, v: &ByteArray) -> std::result::Result<serde_json::Value, String> {
    both(c, v, |a, b| a == b && a.as_slice() == b.as_slice())
}
pub fn run(ctx: &mut Ctx) {
    ctx.rule("random values of every serialisable type; JSON (as text, as a value tree and from a reader) and bincode; the value read back is compared field by field and by its Debug form, and the JSON with the documented form built by the oracle; distinct by type and value");
    // sizes beyond 8 and 16 bits
    ctx.phase("large values", 16, 200, |g, c, i| {
        c.class(format!("large {:02}", i % 8));
        let many = |g: &mut Gen, n: usize| {
            let mut t = utx(g);
            t.inputs = (0..n).map(|_| input(g)).collect();
            t.outputs = (0..n).map(|_| output(g)).collect();
            t
        };
        match i % 8 {
            0 => {
                let n = *g.pick(&[65_535usize, 65_536, 70_000, 200_000]);
                let v: ByteArray = g.bytes(n).into();
                let j = both_bytes(c, &v)?;
                documented!("a byte string", j, js(hex(&v)));
            }
            1 | 2 => {
                let n = *g.pick(&[253usize, 256, 300, 600]);
                let v = many(g, n);
                both(c, &v, utx_eq)?;
            }
            3 => {
                let v = many(g, 300).hashed();
                both_with(c, &v, |a, b| a.hash() == b.hash() && a.raw().as_slice() == b.raw().as_slice() && utx_eq(a.unhashed_tx(), b.unhashed_tx()))?;
            }
            4 => {
                let n = *g.pick(&[256usize, 300, 5_000, 66_000]);
                let v = Script::from_ops((0..n).map(|_| if g.chance(1, 2) { Op::Code(Opcode::OP_DUP) } else { Op::PushByteArray { array: g.bytes(5).into(), is_minimal: true } }).collect::<Vec<_>>());
                let j = both(c, &v, |a, b| a == b && script_bytes(a) == script_bytes(b))?;
                documented!("a script", j, script_json(&v));
            }
            5 => {
                let mut v = input(g);
                v.sig_hash_flags = Some((0..300).map(|_| gen_flags(g)).collect());
                both(c, &v, input_eq)?;
            }
            6 => {
                let mut v = slp_tx(g);
                v.inputs = (0..300).map(|k| SlpTxInput { index: k, token: slp_token(g), input: input(g), prev_script: script(g) }).collect();
                v.outputs = (0..300).map(|_| SlpTxOutput { token: slp_token(g), output: output(g) }).collect();
                both(c, &v, |a, b| {
                    a.version == b.version
                        && a.inputs.len() == b.inputs.len()
                        && a.outputs.len() == b.outputs.len()
                        && a.inputs.iter().zip(&b.inputs).all(|(a, b)| a.index == b.index && a.token == b.token && input_eq(&a.input, &b.input) && script_bytes(&a.prev_script) == script_bytes(&b.prev_script))
                        && a.outputs.iter().zip(&b.outputs).all(|(a, b)| a.token == b.token && output_eq(&a.output, &b.output))
                })?;
            }
            _ => {
                let mut v = token_meta(g);
                v.name = text(g).repeat(300) + &"x\u{4e2d}".repeat(20_000);
                v.document_hash = g.bytes(70_000);
                both(c, &v, |a, b| a.ticker == b.ticker && a.name == b.name && a.document_url == b.document_url && a.document_hash == b.document_hash && a.decimals == b.decimals)?;
            }
        }
        Ok(())
    });
    ctx.phase("values", 9_000, 900_000, |g, c, i| case(g, c, i));
}

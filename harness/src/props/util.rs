use crate::oracle::script::{self, Tok};
use crate::oracle::tx::*;
use crate::oracle::{hex, scriptnum};
use crate::prng::Gen;
use bitcoin_cash::*;

pub fn ba(b: &[u8]) -> ByteArray {
    ByteArray::from_slice_unnamed(b)
}
pub fn all_opcodes() -> Vec<Opcode> {
    (0u16..=0xff).filter_map(|b| num::FromPrimitive::from_u8(b as u8)).collect()
}
/// consensus opcodes that may appear as plain operations
pub fn plain_opcode_bytes() -> Vec<u8> {
    crate::oracle::interp::NAMES.iter().map(|x| x.1).filter(|b| !(0x4c..=0x4e).contains(b)).collect()
}
pub fn opcode(b: u8) -> Opcode {
    num::FromPrimitive::from_u8(b).unwrap_or_else(|| panic!("opcode byte {:02x} unknown to the library", b))
}
/// the bytes an operation must serialise to
pub fn op_bytes(op: &Op) -> Vec<u8> {
    match op {
        Op::Code(c) => vec![*c as u8],
        Op::Invalid(b) => vec![*b],
        Op::PushBoolean(b) => vec![if *b { 0x51 } else { 0 }],
        Op::PushInteger(i) => script::push_minimal(&scriptnum(i.value() as i64)),
        Op::PushByteArray { array, is_minimal } => {
            if *is_minimal {
                script::push_minimal(array)
            } else {
                script::push_prefixed(array)
            }
        }
    }
}
pub fn script_bytes(s: &Script) -> Vec<u8> {
    s.ops().iter().flat_map(|o| op_bytes(&o.op)).collect()
}
pub fn gen_op(g: &mut Gen, big: bool) -> Op {
    match g.below(10) {
        0..=2 => Op::Code(opcode(*g.pick(&plain_opcode_bytes()))),
        3 => Op::PushBoolean(g.chance(1, 2)),
        4 | 5 => Op::PushInteger(Integer::new(g.edge_i32()).unwrap()),
        6 => Op::Invalid(0xbe + g.below(0x42) as u8),
        _ => {
            let n = if g.chance(1, 4) { 1 } else { g.edge_len(big) };
            let mut d = g.bytes(n);
            if n == 1 && g.chance(1, 2) {
                d[0] = *g.pick(&[0, 1, 16, 17, 0x80, 0x81, 0xff]);
            }
            Op::PushByteArray { array: d.into(), is_minimal: g.chance(2, 3) }
        }
    }
}
pub fn gen_ops(g: &mut Gen, max: usize, big: bool) -> Vec<Op> {
    let n = if g.chance(1, 10) { 0 } else { g.below(max + 1) };
    (0..n).map(|_| gen_op(g, big)).collect()
}
pub fn gen_count(g: &mut Gen, rare_big: bool) -> usize {
    match g.below(if rare_big { 60 } else { 50 }) {
        0..=3 => 0,
        4..=20 => 1,
        21..=40 => g.below(5),
        41..=48 => g.below(12),
        49 => 30 + g.below(20),
        _ => *g.pick(&[251usize, 252, 253, 254, 255, 256, 257, 300]),
    }
}
/// a consensus transaction with well-formed (tokenisable) scripts
pub fn gen_otx(g: &mut Gen, overlong: bool, big: bool) -> OTx {
    let ni = gen_count(g, big);
    let no = gen_count(g, big);
    let small = ni + no > 20;
    let sc = |g: &mut Gen| {
        let m = if small { 3 } else { 8 };
        let t = script::gen_script(g, m, overlong, big && !small);
        script::encode(&t)
    };
    let ins = (0..ni).map(|_| OIn { txid: g.arr32(), vout: g.edge_u32(), script: sc(g), seq: g.edge_u32() }).collect();
    let outs = (0..no).map(|_| OOut { value: g.edge_u64(), script: sc(g) }).collect();
    OTx { version: g.edge_u32() as i32, ins, outs, lock_time: g.edge_u32() }
}
pub fn lib_outpoint(i: &OIn) -> TxOutpoint {
    TxOutpoint { tx_hash: Sha256d::new(i.txid), vout: i.vout }
}
/// builds the library's value for an oracle transaction without using the library's decoder
pub fn ops_of(bytes: &[u8]) -> Vec<Op> {
    script::tokenize(bytes)
        .expect("generated scripts tokenise")
        .into_iter()
        .map(|t| match t {
            Tok::Op(b) => match num::FromPrimitive::from_u8(b) {
                Some(c) => Op::Code(c),
                None => Op::Invalid(b),
            },
            Tok::Push(o, d) => Op::PushByteArray { is_minimal: script::is_minimal(o, &d), array: d.into() },
        })
        .collect()
}
pub fn lib_tx(t: &OTx) -> UnhashedTx {
    UnhashedTx {
        version: t.version,
        inputs: t.ins.iter().map(|i| TxInput::new(lib_outpoint(i), Script::from_ops(ops_of(&i.script)), i.seq)).collect(),
        outputs: t.outs.iter().map(|o| TxOutput { value: o.value, script: Script::from_ops(ops_of(&o.script)) }).collect(),
        lock_time: t.lock_time,
    }
}
/// the consensus view of a library transaction (scripts via this harness's own encoder)
pub fn otx_of(t: &UnhashedTx) -> OTx {
    OTx {
        version: t.version,
        ins: t
            .inputs
            .iter()
            .map(|i| {
                let mut txid = [0; 32];
                txid.copy_from_slice(i.prev_out.tx_hash.as_slice());
                OIn { txid, vout: i.prev_out.vout, script: script_bytes(&i.script), seq: i.sequence }
            })
            .collect(),
        outs: t.outputs.iter().map(|o| OOut { value: o.value, script: script_bytes(&o.script) }).collect(),
        lock_time: t.lock_time,
    }
}
/// strict operation comparison: kind, payload and push form
pub fn op_eq(a: &Op, b: &Op) -> bool {
    match (a, b) {
        (Op::Code(x), Op::Code(y)) => *x as u8 == *y as u8,
        (Op::Invalid(x), Op::Invalid(y)) => x == y,
        (Op::PushBoolean(x), Op::PushBoolean(y)) => x == y,
        (Op::PushInteger(x), Op::PushInteger(y)) => x.value() == y.value(),
        (Op::PushByteArray { array: x, is_minimal: m }, Op::PushByteArray { array: y, is_minimal: n }) => x.as_slice() == y.as_slice() && m == n,
        _ => false,
    }
}
/// decoded operations against the tokenizer; bytes without an opcode may be Code or Invalid as long as the byte is kept
pub fn ops_match(ops: &[&Op], toks: &[Tok]) -> Result<(), String> {
    if ops.len() != toks.len() {
        return Err(format!("{} operations decoded, tokenizer finds {}", ops.len(), toks.len()));
    }
    for (i, (o, t)) in ops.iter().zip(toks).enumerate() {
        let ok = match (o, t) {
            (Op::Code(c), Tok::Op(b)) => *c as u8 == *b,
            (Op::Invalid(c), Tok::Op(b)) => c == b && !crate::oracle::interp::NAMES.iter().any(|n| n.1 == *b),
            (Op::PushByteArray { array, is_minimal }, Tok::Push(o, d)) => array.as_slice() == &d[..] && *is_minimal == script::is_minimal(*o, d),
            _ => false,
        };
        if !ok {
            return Err(format!("operation {} is {:?}, tokenizer finds {:?}", i, o, t));
        }
    }
    Ok(())
}
pub fn show_tx(t: &OTx) -> String {
    hex(&t.ser())
}
pub fn err_of<T>(r: Result<T, error::Error>) -> String {
    match r {
        Ok(_) => "Ok".into(),
        Err(e) => e.to_string(),
    }
}

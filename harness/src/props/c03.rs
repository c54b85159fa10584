//! C03 script bytecode encoding and decoding
use super::util::*;
use crate::framework::*;
use crate::oracle::script::{self, Tok};
use crate::oracle::{hex, scriptnum};
use crate::{ensure, same};
use bitcoin_cash::*;


/// both decoding entry points against the tokenizer
fn decode(c: &mut Case, s: &[u8]) -> R {
    let toks = script::tokenize(s);
    let a = deserialize_ops(s);
    let b = Script::deser_ops(ba(s));
    let d = deserialize_ops_byte_array(ba(s));
    c.saw(3);
    match toks {
        None => {
            ensure!(a.is_err(), "deserialize_ops accepts a truncated push");
            ensure!(b.is_err(), "Script::deser_ops accepts a truncated push");
            ensure!(d.is_err(), "deserialize_ops_byte_array accepts a truncated push");
        }
        Some(t) => {
            let a = a.map_err(|e| format!("deserialize_ops rejects a well-formed script: {}", e))?;
            let b = b.map_err(|e| format!("Script::deser_ops rejects a well-formed script: {}", e))?;
            let d = d.map_err(|e| format!("deserialize_ops_byte_array rejects a well-formed script: {}", e))?;
            ops_match(&a.iter().collect::<Vec<_>>(), &t).map_err(|e| format!("deserialize_ops: {}", e))?;
            ops_match(&b.ops_arc().iter().map(|o| &o.op).collect::<Vec<_>>(), &t).map_err(|e| format!("Script::deser_ops: {}", e))?;
            ops_match(&d.iter().collect::<Vec<_>>(), &t).map_err(|e| format!("deserialize_ops_byte_array: {}", e))?;
            ensure!(a.len() == d.len() && a.iter().zip(&d).all(|(x, y)| op_eq(x, y)), "the two decoding entry points disagree");
        }
    }
    Ok(())
}
pub fn run(ctx: &mut Ctx) {
    ctx.rule("arbitrary script bytes (exhaustive up to two bytes) and arbitrary operation lists; non-trivial = at least one operation");
    ctx.exhaustive("decode every script of up to two bytes", 1 + 256 + 65536, |_, c, i| {
        let s = match i {
            0 => vec![],
            1..=256 => vec![(i - 1) as u8],
            _ => vec![((i - 257) >> 8) as u8, (i - 257) as u8],
        };
        c.input(hex(&s));
        decode(c, &s)
    });
    ctx.phase("decode generated scripts", 30_000, 2_000_000, |g, c, _| {
        let big = g.chance(1, 60);
        let mut t = script::gen_script(g, 10, true, big);
        if g.chance(1, 4) {
            // pure opcode soup
            let n = g.below(40);
            t = (0..n).map(|_| Tok::Op(0x4f + g.below(0xb1) as u8)).collect();
        }
        let mut s = script::encode(&t);
        match g.below(4) {
            0 if !s.is_empty() => {
                let n = g.below(s.len());
                s.truncate(n);
                c.class("truncated");
            }
            1 if !s.is_empty() => {
                let p = g.below(s.len());
                s[p] = g.u8();
                c.class("mutated");
            }
            _ => c.class("well formed"),
        }
        c.input(hex(&s));
        if s.is_empty() {
            c.trivial();
        }
        decode(c, &s)
    });
    ctx.phase("decode random bytes", 30_000, 2_000_000, |g, c, _| {
        let n = g.below(80);
        let mut s = g.bytes(n);
        if g.chance(1, 2) {
            for b in s.iter_mut() {
                if g.chance(1, 2) {
                    *b = *g.pick(&[0u8, 1, 2, 3, 0x4b, 0x4c, 0x4d, 0x4e, 0x4f, 0x50, 0x51, 0x60, 0x61, 0xac, 0xbd, 0xff]);
                }
            }
        }
        c.input(hex(&s));
        if s.is_empty() {
            c.trivial();
        }
        c.class(if script::tokenize(&s).is_some() { "random well formed" } else { "random malformed" });
        decode(c, &s)
    });
    ctx.phase("encode operations", 20_000, 1_500_000, |g, c, _| {
        let big = g.chance(1, 60);
        let ops = gen_ops(g, 10, big);
        let want: Vec<u8> = ops.iter().flat_map(|o| op_bytes(o)).collect();
        c.input(format!("{:?}", clip(&format!("{:?}", ops), 3000)));
        if ops.is_empty() {
            c.trivial();
        }
        for o in &ops {
            c.class(match o {
                Op::Code(_) => "opcode",
                Op::Invalid(_) => "invalid opcode",
                Op::PushBoolean(_) => "boolean",
                Op::PushInteger(_) => "integer",
                Op::PushByteArray { is_minimal: true, .. } => "minimal push",
                Op::PushByteArray { .. } => "non-minimal push",
            });
            same!(format!("serialize_op({:?})", o), hex(&serialize_op(o).map_err(|e| e.to_string())?), hex(&op_bytes(o)));
        }
        same!("serialize_ops", hex(&serialize_ops(ops.iter()).map_err(|e| e.to_string())?), hex(&want));
        let s = Script::from_ops(ops.clone());
        same!("Script::ser_ops", hex(&s.ser_ops()), hex(&want));
        let t = script::tokenize(&want).ok_or("harness error: encoded operations do not tokenise")?;
        let back = Script::deser_ops(s.ser_ops()).map_err(|e| format!("own encoding rejected: {}", e))?;
        ops_match(&back.ops_arc().iter().map(|o| &o.op).collect::<Vec<_>>(), &t)?;
        same!("encoded again", hex(&back.ser_ops()), hex(&want));
        // up to the documented equivalences each operation comes back
        for (o, b) in ops.iter().zip(back.ops_arc().iter()) {
            let ok = match (o, &b.op) {
                (Op::Code(x), Op::Code(y)) => x == y,
                (Op::Invalid(x), Op::Invalid(y)) => x == y,
                (Op::Invalid(x), Op::Code(y)) => *x == *y as u8,
                (Op::PushByteArray { array, is_minimal }, Op::PushByteArray { array: a2, is_minimal: m2 }) => {
                    array.as_slice() == a2.as_slice() && (is_minimal == m2 || script::push_minimal(array) == script::push_prefixed(array))
                }
                (Op::PushByteArray { array, is_minimal: true }, Op::Code(y)) => array.len() <= 1 && script::push_minimal(array) == vec![*y as u8],
                (Op::PushInteger(x), y) => y.to_integer().map(|v| v.value()) == Some(x.value()),
                (Op::PushBoolean(x), y) => y.to_integer().map(|v| v.value()) == Some(*x as i32),
                _ => false,
            };
            ensure!(ok, "{:?} came back as {:?}", o, b.op);
        }
        c.saw(3 * ops.len() + 3);
        Ok(())
    });
    ctx.phase("push lengths", 330, 70_000, |g, c, i| {
        let n = if i < 300 { i as usize } else { *g.pick(&[0x4b, 0x4c, 0xfe, 0xff, 0x100, 0x101, 0xfffe, 0xffff, 0x10000, 0x10001, 70_000, 300, 520]) };
        let n = if i >= 400 { i as usize } else { n };
        let d = g.bytes(n);
        c.input(format!("push of {} bytes {}", n, clip(&hex(&d), 200)));
        for m in &[true, false] {
            let op = Op::PushByteArray { array: d.clone().into(), is_minimal: *m };
            same!(format!("push of {} bytes, minimal {}", n, m), hex(&serialize_op(&op).map_err(|e| e.to_string())?), hex(&op_bytes(&op)));
            decode(c, &op_bytes(&op))?;
        }
        Ok(())
    });
    // numbers of operations beyond 8 and 16 bits
    ctx.phase("long scripts", 24, 400, |g, c, i| {
        let n = [254usize, 255, 256, 257, 300, 1000, 4096, 10_000, 32_768, 65_535, 65_536, 65_537][i as usize % 12];
        let pushes = i % 24 < 12 && n <= 10_000;
        let mut ops: Vec<Op> = vec![];
        while ops.len() < n {
            let k = g.u8();
            ops.push(if pushes && g.chance(1, 3) {
                let m = g.below(90);
                Op::PushByteArray { array: g.bytes(m).into(), is_minimal: true }
            } else if k > 0x60 && k < 0xba {
                Op::Code(*g.pick(&[Opcode::OP_NOP, Opcode::OP_DUP, Opcode::OP_IF, Opcode::OP_CHECKSIG, Opcode::OP_CODESEPARATOR, Opcode::OP_RETURN]))
            } else {
                Op::PushInteger(Integer::new(k as i32 * if g.chance(1, 2) { 1 } else { -4099 }).unwrap())
            });
        }
        let want: Vec<u8> = ops.iter().flat_map(|o| op_bytes(o)).collect();
        c.input(format!("{} operations, {} bytes: {}", n, want.len(), clip(&hex(&want), 2000)));
        c.class(format!("{} operations", n));
        same!("length of serialize_ops", serialize_ops(ops.iter()).map_err(|e| e.to_string())?.len(), want.len());
        ensure!(serialize_ops(ops.iter()).map_err(|e| e.to_string())?[..] == want[..], "serialize_ops of {} operations differs", n);
        let s = Script::from_ops(ops);
        same!("number of operations held", s.ops().len(), n);
        ensure!(s.ser_ops().as_slice() == &want[..], "Script::ser_ops of {} operations differs", n);
        decode(c, &want)?;
        // cut inside a push near the end: still rejected
        let mut cut = want.clone();
        cut.extend_from_slice(&[5, 1, 2, 3, 4]);
        decode(c, &cut)
    });
    ctx.exhaustive("single-byte pushes, booleans and small integers", 256, |_, c, i| {
        c.input(format!("byte {:02x}", i));
        for m in &[true, false] {
            let op = Op::PushByteArray { array: vec![i as u8].into(), is_minimal: *m };
            same!(format!("push of one byte, minimal {}", m), hex(&serialize_op(&op).unwrap()), hex(&op_bytes(&op)));
        }
        let v = i as i32 - 128;
        let op = Op::PushInteger(Integer::new(v).unwrap());
        let want = match v {
            0 => vec![0],
            -1 => vec![0x4f],
            1..=16 => vec![0x50 + v as u8],
            _ => {
                let b = scriptnum(v as i64);
                [vec![b.len() as u8], b].concat()
            }
        };
        same!(format!("push of integer {}", v), hex(&serialize_op(&op).unwrap()), hex(&want));
        same!("false", hex(&serialize_op(&Op::PushBoolean(false)).unwrap()), "00");
        same!("true", hex(&serialize_op(&Op::PushBoolean(true)).unwrap()), "51");
        c.saw(5);
        Ok(())
    });
}

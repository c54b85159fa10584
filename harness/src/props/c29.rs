//! C29 Values, operations and their texts stand for each other
use super::util::*;
use crate::framework::*;
use crate::oracle::interp::{from_tokens, SigCheck, Vm, NAMES};
use crate::oracle::script::tokenize;
use crate::oracle::{compact, hex, scriptnum, scriptnum_value};
use crate::prng::Gen;
use crate::{ensure, same};
use bitcoin_cash::*;

/// the item a single pushed operation leaves on a real stack
fn item(op: &Op) -> Result<Vec<u8>, String> {
    let ser = Script::from_ops(vec![op.clone()]).ser_ops();
    same!("bytes of the operation", hex(&ser), hex(&op_bytes(op)));
    let toks = tokenize(&ser).ok_or("the operation's bytes are not a script")?;
    let check: &SigCheck = &|_, _, _| false;
    let mut vm = Vm::new(check);
    vm.run(&from_tokens(&toks))?;
    same!("items on the stack", vm.stack.len(), 1);
    Ok(vm.stack[0].clone())
}
fn value<V: BitcoinDataType + ?Sized>(what: &str, v: &V, bytes: &[u8], kind: &str, data: impl Fn(V::Type) -> Vec<u8>) -> R {
    let op = v.to_pushop();
    same!(format!("item pushed by {}", what), hex(&item(&op)?), hex(bytes));
    same!(format!("data of {}", what), hex(&data(v.to_data())), hex(bytes));
    let t = v.to_data_type();
    let ok = match (kind, t) {
        ("int", DataType::Integer) | ("bool", DataType::Boolean) | ("bytes", DataType::ByteArray(None)) => true,
        ("bytes", DataType::ByteArray(Some(n))) => n == bytes.len(),
        _ => false,
    };
    ensure!(ok, "data type of {} ({} bytes): {:?}", what, bytes.len(), t);
    let k = match (&op, StackItemData::from(op.clone())) {
        (Op::PushInteger(a), StackItemData::Integer(b)) => *a == b && kind == "int",
        (Op::PushBoolean(a), StackItemData::Boolean(b)) => *a == b && kind == "bool",
        (Op::PushByteArray { array, .. }, StackItemData::ByteArray(b)) => *array == b && kind == "bytes",
        _ => false,
    };
    ensure!(k, "{} is pushed as {:?}", what, op);
    Ok(())
}
fn num(v: BitcoinInteger) -> Vec<u8> {
    scriptnum(v.0.value() as i64)
}
fn arr(v: BitcoinByteArray) -> Vec<u8> {
    v.0.to_vec()
}
/// which number an operation pushes by consensus, if any of 32 bits
fn number(op: &Op) -> Option<i32> {
    let v = match op {
        Op::Code(c) => match *c as u8 {
            0 => 0,
            0x4f => -1,
            b @ 0x51..=0x60 => b as i128 - 0x50,
            _ => return None,
        },
        Op::Invalid(_) => return None,
        Op::PushBoolean(b) => *b as i128,
        Op::PushInteger(i) => i.value() as i128,
        Op::PushByteArray { array, .. } => scriptnum_value(array)?,
    };
    if v.abs() <= 0x7fff_ffff { Some(v as i32) } else { None }
}
fn text(op: &Op) -> String {
    match op {
        Op::Code(c) => NAMES.iter().find(|n| n.1 == *c as u8).map(|n| n.0.to_string()).unwrap_or_else(|| c.to_string()),
        Op::Invalid(b) => format!("{:02x}", b),
        Op::PushBoolean(b) => if *b { "OP_TRUE" } else { "OP_FALSE" }.to_string(),
        Op::PushInteger(i) => i.value().to_string(),
        Op::PushByteArray { array, .. } => format!("0x{}", hex(array)),
    }
}
fn equal(a: &Op, b: &Op) -> bool {
    match (a, b) {
        (Op::Code(x), Op::Code(y)) => *x as u8 == *y as u8,
        (Op::Invalid(x), Op::Invalid(y)) => x == y,
        (Op::PushBoolean(x), Op::PushBoolean(y)) => x == y,
        (Op::PushInteger(x), Op::PushInteger(y)) => x.value() == y.value(),
        (Op::PushByteArray { array: x, .. }, Op::PushByteArray { array: y, .. }) => x[..] == y[..],
        _ => false,
    }
}
fn operation(op: &Op) -> R {
    let n = number(op);
    match op.to_integer() {
        Some(i) => same!(format!("number of {:?}", op), Some(i.value()), n),
        None => {
            // longer strings may be refused; anything consensus takes as a number may not
            let short = match op {
                Op::PushByteArray { array, .. } => array.len() <= 4,
                _ => true,
            };
            ensure!(n.is_none() || !short, "{:?} is the number {:?}, to_integer() is None", op, n);
        }
    }
    match (op, op.to_byte_array()) {
        (Op::PushByteArray { array, .. }, Some(b)) => {
            ensure!(array == b && array.name() == b.name() && array.function() == b.function(), "to_byte_array() is another byte string")
        }
        (Op::PushByteArray { .. }, None) => return Err(format!("to_byte_array() of {:?} is None", op)),
        (_, b) => ensure!(b.is_none(), "to_byte_array() of {:?} is {:?}", op, b),
    }
    same!("text of an operation", op.to_string(), text(op));
    if let Op::Code(c) = op {
        same!("text of an opcode", c.to_string(), text(op));
    }
    let p = PatternOp::from(op);
    let ok = match (&p, op) {
        (PatternOp::Code(x), Op::Code(y)) => *x as u8 == *y as u8,
        (PatternOp::Invalid(x), Op::Invalid(y)) => x == y,
        (PatternOp::Bool(x), Op::PushBoolean(y)) => x == y,
        (PatternOp::Int(x), Op::PushInteger(y)) => x.value() == y.value(),
        (PatternOp::Array(x), Op::PushByteArray { array, .. }) => x[..] == array[..],
        _ => false,
    };
    ensure!(ok, "pattern of {:?} is {:?}", op, p);
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    ctx.rule("random and boundary values of every type that can be pushed, the item they push judged by executing the operation on an independent interpreter; all operations of all kinds against consensus numbers and written texts");
    ctx.phase("values", 30_000, 1_000_000, |g, c, i| {
        match i % 12 {
            0 => {
                let v = g.edge_i32();
                c.input(format!("Integer {}", v));
                let x = Integer::new(v).unwrap();
                value("an integer", &x, &scriptnum(v as i64), "int", num)?;
                value("a plain integer", &v, &scriptnum(v as i64), "int", num)?;
                value("a computed integer", &(x + 0), &scriptnum(v as i64), "int", num)?;
                same!("from_int", Op::from_int(v).to_integer().map(|x| x.value()), Some(v));
                same!("text of a computed integer", (x + 0).to_string(), v.to_string());
                same!("text of an integer", x.to_string(), v.to_string());
            }
            1 => {
                let v = g.chance(1, 2);
                c.input(format!("bool {}", v));
                value("a boolean", &v, if v { &[1] } else { &[] }, "bool", |b| if b.0 { vec![1] } else { vec![] })?;
            }
            2 | 3 => {
                let n = g.edge_len(i % 50 == 2);
                let v = g.bytes(n);
                c.input(format!("bytes {}", hex(&v)));
                value("a slice", &v[..], &v, "bytes", arr)?;
                value("a byte string", &ba(&v), &v, "bytes", arr)?;
                let named = ba(&v).named("x");
                value("a named byte string", &named, &v, "bytes", arr)?;
                same!("name of the pushed bytes", named.to_pushop().to_byte_array().and_then(|b| b.name()), Some("x"));
                same!("operation of a byte string", hex(&item(&Op::from(ba(&v)))?), hex(&v));
                same!("bytes of a vector", hex(&ByteArray::from(v.clone())), hex(&v));
                same!("bytes of a slice", hex(&ByteArray::from(&v[..])), hex(&v));
            }
            4 => {
                let mut v = [0; 33];
                v.copy_from_slice(&g.bytes(33));
                c.input(format!("Pubkey {}", hex(&v)));
                let p = Pubkey::new(v);
                value("a public key", &p, &v, "bytes", arr)?;
                same!("text of a public key", p.to_string(), hex(&v));
                same!("bytes of a public key", hex(p.as_slice()), hex(&v));
                same!("public key from bytes", Pubkey::from_slice(&v), p);
                let n = g.edge_len(false) % 70;
                let w = g.bytes(n);
                same!("public key from any bytes", Pubkey::from_slice_checked(&w).map(|p| p.as_slice().to_vec()), if n == 33 { Some(w.clone()) } else { None });
                let q = Pubkey::from_slice_checked(&v);
                same!("public key from the right number of bytes", q, Some(p));
            }
            5 => {
                let v = g.arr20();
                c.input(format!("20-byte hashes {}", hex(&v)));
                value("a SHA-1 hash", &Sha1::new(v), &v, "bytes", arr)?;
                value("a RIPEMD-160 hash", &Ripemd160::new(v), &v, "bytes", arr)?;
                value("a HASH160", &Hash160::new(v), &v, "bytes", arr)?;
            }
            6 => {
                let v = g.arr32();
                c.input(format!("32-byte hashes {}", hex(&v)));
                value("a SHA-256 hash", &Sha256::new(v), &v, "bytes", arr)?;
                value("a double SHA-256 hash", &Sha256d::new(v), &v, "bytes", arr)?;
            }
            7 => {
                let s = Script::from_ops(gen_ops(g, 6, false));
                let p = TxPreimage::empty_with_script(&s);
                let b = p.ser().to_vec();
                let code = script_bytes(&s.to_script_code_first());
                same!("script code of the empty preimage", hex(&b[104..b.len() - 52]), hex(&[compact(code.len() as u64), code].concat()));
                c.input(format!("preimage {}", hex(&b)));
                value("a preimage", &p, &b, "bytes", arr)?;
            }
            _ => {
                let op = gen_op(g, false);
                c.input(format!("{:?}", op));
                operation(&op)?;
                let other = if g.chance(1, 2) { gen_op(g, false) } else { neighbour(g, &op) };
                same!(format!("{:?} == {:?}", op, other), op == other, equal(&op, &other));
                same!(format!("{:?} == {:?}", other, op), other == op, equal(&op, &other));
                same!("patterns equal", PatternOp::from(&op) == PatternOp::from(&other), equal(&op, &other));
                ensure!(op == op.clone(), "{:?} is not equal to its clone", op);
            }
        }
        c.class(format!("kind {}", (i % 12).min(8)));
        c.saw(4);
        Ok(())
    });
    ctx.exhaustive("every opcode byte and short push", 256 + 65_536, |_, c, i| {
        if i < 256 {
            c.input(format!("byte {:02x}", i));
            let op = match num::FromPrimitive::from_u8(i as u8) {
                Some(o) => Op::Code(o),
                None => Op::Invalid(i as u8),
            };
            operation(&op)?;
            operation(&Op::PushByteArray { array: vec![i as u8].into(), is_minimal: i % 2 == 0 })?;
        } else {
            let v = (i - 256) as u16;
            c.input(format!("push {:04x}", v));
            operation(&Op::PushByteArray { array: v.to_le_bytes()[..].into(), is_minimal: true })?;
        }
        c.saw(4);
        Ok(())
    });
    ctx.phase("texts of scripts", 10_000, 300_000, |g, c, _| {
        let ops = if g.chance(1, 400) { gen_ops(g, 1500, true) } else { gen_ops(g, 20, false) };
        let s = Script::from_ops(ops.clone());
        let t = s.to_string();
        c.input(t.clone());
        same!("text of a script", t.split_whitespace().map(String::from).collect::<Vec<_>>(), ops.iter().map(text).collect::<Vec<_>>());
        c.saw(ops.len());
        Ok(())
    });
    ctx.exhaustive("defaults", 1, |_, c, _| {
        c.input("defaults");
        let t = UnhashedTx::default();
        same!("default transaction", hex(&t.ser()), "01000000000000000000");
        same!("default script", Script::default().ser_ops().len(), 0);
        same!("default byte string", ByteArray::default().len(), 0);
        same!("default integer", Integer::default().value(), 0);
        let t = TxBuilder::new_simple().build_without_estimation().map_err(|e| e.to_string())?.complete_tx();
        same!("transaction of a fresh simple builder", hex(&t.ser()), "01000000000000000000");
        c.saw(5);
        Ok(())
    });
}
/// an operation that differs in one respect, or only in its push form, name or kind
fn neighbour(g: &mut Gen, op: &Op) -> Op {
    match op {
        Op::PushByteArray { array, is_minimal } => match g.below(5) {
            0 => Op::PushByteArray { array: array.clone().named("other"), is_minimal: !is_minimal },
            1 => Op::PushByteArray { array: array.clone().concat(vec![0]), is_minimal: *is_minimal },
            2 if !array.is_empty() => Op::PushByteArray { array: array[..array.len() - 1].into(), is_minimal: *is_minimal },
            3 => op.to_integer().map(Op::PushInteger).unwrap_or_else(|| op.clone()),
            _ => op.clone(),
        },
        Op::PushInteger(i) => match g.below(4) {
            0 => Op::PushInteger(Integer::new(-i.value()).unwrap_or(*i)),
            1 => Op::PushByteArray { array: scriptnum(i.value() as i64).into(), is_minimal: true },
            2 => Op::PushBoolean(i.value() != 0),
            _ => op.clone(),
        },
        Op::PushBoolean(b) => match g.below(3) {
            0 => Op::PushBoolean(!b),
            1 => Op::PushInteger(Integer::new(*b as i32).unwrap()),
            _ => op.clone(),
        },
        Op::Code(c) => match g.below(3) {
            0 => Op::Invalid(*c as u8),
            1 => op.to_integer().map(Op::PushInteger).unwrap_or_else(|| op.clone()),
            _ => op.clone(),
        },
        Op::Invalid(b) => Op::Invalid(b ^ 1),
    }
}

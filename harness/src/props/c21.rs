//! C21 the opcode table
use super::util::*;
use crate::framework::*;
use crate::oracle::interp::{IOp, Vm, NAMES};
use crate::oracle::{hex, scriptnum, scriptnum_value};
use crate::prng::Gen;
use crate::{ensure, same};
use bitcoin_cash::*;

fn name_of(b: u8) -> Option<&'static str> {
    NAMES.iter().find(|x| x.1 == b).map(|x| x.0)
}
fn from_byte(b: u8) -> Option<Opcode> {
    num::FromPrimitive::from_u8(b)
}
const SENTINEL: u8 = 0xbd;
fn table(b: u8, c: &mut Case) -> R {
    let o = from_byte(b);
    match (name_of(b), o) {
        (Some(n), Some(o)) => {
            c.class("consensus opcode");
            same!("byte of the opcode", o as u8, b);
            same!("Debug name", format!("{:?}", o), n);
            same!("Display name", format!("{}", o), n);
            let s: &str = o.into();
            same!("static name", s, n);
            same!("operation's Display", format!("{}", Op::Code(o)), n);
            for w in 0..8i64 {
                // other integer widths convert to the same opcode or to none
                let x: Option<Opcode> = num::FromPrimitive::from_i64(b as i64 + (w << 8));
                same!(format!("opcode number {:x}", b as i64 + (w << 8)), x, if w == 0 { Some(o) } else { None });
            }
            let usable = !(0x4c..=0x50).contains(&b) || b == 0x4f;
            same!("opcode found by name", MAP_NAME_TO_ENUM.get(n).copied(), if usable { Some(o) } else { None });
        }
        (Some(n), None) => return Err(format!("{} ({:02x}) is unknown", n, b)),
        (None, Some(o)) => ensure!(b == SENTINEL && o == Opcode::FIRST_UNDEFINED_OP_VALUE, "byte {:02x} is {:?}", b, o),
        (None, None) => {
            c.class("undefined byte");
        }
    }
    if (1..=0x4e).contains(&b) {
        return Ok(());
    }
    // one byte alone, and between other operations
    for (pre, post) in &[("", ""), ("51", "52"), ("0201ab", "02ab01")] {
        let mut d = crate::oracle::unhex(pre).unwrap();
        d.push(b);
        d.extend(crate::oracle::unhex(post).unwrap());
        let s = Script::deser_ops(ba(&d)).map_err(|e| e.to_string())?;
        let at = if pre.is_empty() { 0 } else { 1 };
        let op = s.ops_arc()[at].op.clone();
        match (&op, o) {
            (Op::Code(x), Some(y)) => same!(format!("decoding {}", hex(&d)), *x, y),
            (Op::Invalid(x), None) => same!(format!("decoding {}", hex(&d)), *x, b),
            (op, _) => return Err(format!("{} decodes to {:?}", hex(&d), op)),
        }
        same!("encoded again", hex(&s.ser_ops()), hex(&d));
        same!("operation encoded alone", hex(&Script::from_ops(vec![op]).ser_ops()), hex(&[b]));
    }
    Ok(())
}
fn generic(g: &mut Gen) -> Vec<u8> {
    let n = g.below(6);
    g.bytes(n)
}
fn small(g: &mut Gen) -> i64 {
    *g.pick(&[0i64, 1, -1, 2, 5, 16, 17, -17, 127, 128, 255, 1000, -70000])
}
/// inputs the opcode can be executed on
fn inputs(g: &mut Gen, o: Opcode, types: &[DataType]) -> Vec<Vec<u8>> {
    use Opcode::*;
    let mut v: Vec<Vec<u8>> = types
        .iter()
        .map(|t| match t {
            DataType::Integer => scriptnum(small(g)),
            DataType::Boolean => scriptnum(g.below(2) as i64),
            DataType::ByteArray(_) | DataType::Generic => generic(g),
        })
        .collect();
    let k = v.len();
    match o {
        OP_VERIFY => v[0] = vec![1],
        OP_SPLIT => {
            let n = g.below(v[0].len() + 1);
            v[1] = scriptnum(n as i64)
        }
        OP_NUM2BIN => v[1] = scriptnum(4 + g.below(6) as i64),
        OP_BIN2NUM => {
            let n = g.below(4);
            v[0] = g.bytes(n)
        }
        OP_AND | OP_OR | OP_XOR => {
            let n = v[0].len();
            v[1] = g.bytes(n)
        }
        OP_EQUALVERIFY | OP_NUMEQUALVERIFY => v[1] = v[0].clone(),
        OP_EQUAL | OP_NUMEQUAL if g.chance(1, 2) => v[1] = v[0].clone(),
        OP_DIV | OP_MOD => {
            if v[1].is_empty() {
                v[1] = vec![3]
            }
        }
        OP_CHECKLOCKTIMEVERIFY | OP_CHECKSEQUENCEVERIFY => v[k - 1] = scriptnum(g.below(70000) as i64),
        _ => (),
    }
    v
}
fn behave(g: &mut Gen, c: &mut Case, b: u8) -> R {
    use Opcode::*;
    let o = from_byte(b).ok_or("unknown")?;
    let verdict = g.chance(1, 2) || [OP_CHECKSIGVERIFY, OP_CHECKDATASIGVERIFY].contains(&o);
    let sig = move |_: &[u8], _: &[u8], _: usize| verdict;
    // is it executable at all?
    let executable = {
        let mut vm = Vm::new(&sig);
        vm.stack = vec![vec![1]; 8];
        match vm.step(0, &IOp::Code(b)) {
            Err(e) => !e.contains("cannot be executed"),
            Ok(()) => true,
        }
    };
    same!("is_disabled", o.is_disabled(), !executable);
    c.input(format!("{:?}", o));
    if o.is_disabled() {
        ensure!(panics(|| drop(o.behavior())), "{:?} is disabled but has a declared behaviour", o);
        c.class("disabled");
        return Ok(());
    }
    if [OP_IFDUP, OP_CHECKMULTISIG, OP_CHECKMULTISIGVERIFY].contains(&o) {
        ensure!(panics(|| drop(o.behavior())), "{:?} has a declared behaviour, which cannot be right for every stack", o);
        c.class("not expressible");
        return Ok(());
    }
    let beh = o.behavior();
    same!("one delta per produced item", beh.delta.len(), beh.output_types.len());
    if let Some(order) = beh.output_order {
        same!("one order entry per produced item", order.len(), beh.output_types.len());
        ensure!(order.iter().all(|x| *x < beh.input_types.len()), "order {:?} with {} inputs", order, beh.input_types.len());
    }
    if o == OP_RETURN {
        same!("items consumed and produced", (beh.input_types.len(), beh.output_types.len()), (0, 0));
        return Ok(());
    }
    let nb = g.below(5);
    let below: Vec<Vec<u8>> = (0..nb).map(|_| generic(g)).collect();
    let alt: Vec<Vec<u8>> = (0..1 + g.below(3)).map(|_| generic(g)).collect();
    let mut ins = inputs(g, o, beh.input_types);
    // distinct items where the order is declared
    if beh.output_order.is_some() {
        for (i, x) in ins.iter_mut().enumerate() {
            x.push(i as u8);
        }
    }
    let mut below = below;
    let mut expect_top = None;
    if o == OP_PICK || o == OP_ROLL {
        if below.is_empty() {
            below.push(generic(g));
        }
        let d = g.below(below.len());
        ins[0] = scriptnum(d as i64);
        let at = below.len() - 1 - d;
        expect_top = Some(below[at].clone());
    }
    let mut vm = Vm::new(&sig);
    vm.stack = below.clone();
    vm.stack.extend(ins.iter().cloned());
    vm.alt = alt.clone();
    if o == OP_ELSE || o == OP_ENDIF {
        vm.stack.push(vec![1]);
        vm.step(0, &IOp::Code(0x63))?;
    }
    c.input(format!("{:?} on {} below {} inputs {}", o, below.len(), ins.len(), ins.iter().map(|x| hex(x)).collect::<Vec<_>>().join(",")));
    vm.step(1, &IOp::Code(b)).map_err(|e| format!("the interpreter cannot run {:?} on inputs {:?} of the declared types: {}", o, ins, e))?;
    if let Some(t) = expect_top {
        if o == OP_ROLL {
            let d = scriptnum_value(&ins[0]).unwrap() as usize;
            let at = below.len() - 1 - d;
            below.remove(at);
        }
        below.push(t);
        same!("stack after", vm.stack, below);
        same!("produced items", beh.output_types.len(), 1);
        same!("consumed items", beh.input_types.len(), 1);
        same!("produced item is moved", beh.delta[0] == StackItemDelta::Moved, o == OP_ROLL);
        return Ok(());
    }
    ensure!(vm.stack.len() >= below.len() && vm.stack[..below.len()] == below[..], "items below the declared inputs of {:?} change", o);
    let outs = vm.stack[below.len()..].to_vec();
    same!(format!("items {:?} produces", o), beh.output_types.len(), outs.len());
    // consumes no fewer than declared: with one item fewer it must fail (or its declared inputs are none)
    if !ins.is_empty() {
        let mut v2 = Vm::new(&sig);
        v2.stack = ins[1..].to_vec();
        v2.alt = alt.clone();
        ensure!(v2.step(0, &IOp::Code(b)).is_err(), "{:?} runs on fewer items than it declares", o);
    }
    if let Some(order) = beh.output_order {
        for (k, i) in order.iter().enumerate() {
            same!(format!("{:?}: produced item {}", o, k), hex(&outs[k]), hex(&ins[*i]));
        }
    }
    if o.retains_input() {
        same!(format!("{:?}: retained input", o), hex(&outs[0]), hex(&ins[0]));
    }
    for (k, t) in beh.output_types.iter().enumerate() {
        match t {
            DataType::Boolean => ensure!(outs[k].is_empty() || outs[k] == [1], "{:?} gives {} as a boolean", o, hex(&outs[k])),
            DataType::Integer => ensure!(scriptnum(scriptnum_value(&outs[k]).unwrap_or(0) as i64) == outs[k], "{:?} gives {} as an integer", o, hex(&outs[k])),
            DataType::ByteArray(Some(n)) => same!(format!("length of what {:?} gives", o), outs[k].len(), *n),
            _ => (),
        }
        use StackItemDelta::*;
        match beh.delta[k] {
            Untouched => ensure!(ins.get(k) == Some(&outs[k]), "{:?}: item {} is not untouched", o, k),
            Observed => ensure!(ins.get(k) == Some(&outs[k]), "{:?}: item {} is not merely observed", o, k),
            Moved | MovedIndirectly => ensure!(ins.contains(&outs[k]), "{:?}: item {} is not one of the inputs", o, k),
            _ => (),
        }
    }
    let alt_after = match o {
        OP_TOALTSTACK => {
            let mut a = alt.clone();
            a.push(ins[0].clone());
            a
        }
        OP_FROMALTSTACK => {
            same!("item from the alt stack", hex(&outs[0]), hex(alt.last().unwrap()));
            alt[..alt.len() - 1].to_vec()
        }
        _ => alt,
    };
    same!("alt stack", vm.alt, alt_after);
    // an input that is none of the outputs must not be claimed retained by the table
    c.class("executed");
    c.saw(4 + outs.len());
    Ok(())
}
/// the typed stand-ins used for type checking permute their arguments like the opcode does
fn stand_ins() -> R {
    use bitcoin_cash_base::func as f;
    fn order(o: Opcode, got: Vec<u8>) -> R {
        let beh = o.behavior();
        let want: Vec<u8> = beh.output_order.ok_or("no order")?.iter().map(|x| *x as u8).collect();
        same!(format!("argument order of the typed {:?}", o), got, want);
        Ok(())
    }
    use Opcode::*;
    order(OP_2DUP, { let (a, b, c, d) = f::OP_2DUP(0u8, 1u8); vec![a, b, c, d] })?;
    order(OP_3DUP, { let (a, b, c, d, e, g) = f::OP_3DUP(0u8, 1u8, 2u8); vec![a, b, c, d, e, g] })?;
    order(OP_2OVER, { let (a, b, c, d, e, g) = f::OP_2OVER(0u8, 1u8, 2u8, 3u8); vec![a, b, c, d, e, g] })?;
    order(OP_2ROT, { let (a, b, c, d, e, g) = f::OP_2ROT(0u8, 1u8, 2u8, 3u8, 4u8, 5u8); vec![a, b, c, d, e, g] })?;
    order(OP_2SWAP, { let (a, b, c, d) = f::OP_2SWAP(0u8, 1u8, 2u8, 3u8); vec![a, b, c, d] })?;
    order(OP_DUP, { let (a, b) = f::OP_DUP(0u8); vec![a, b] })?;
    order(OP_NIP, { let a = f::OP_NIP(0u8, 1u8); vec![a] })?;
    order(OP_OVER, { let (a, b, c) = f::OP_OVER(0u8, 1u8); vec![a, b, c] })?;
    order(OP_ROT, { let (a, b, c) = f::OP_ROT(0u8, 1u8, 2u8); vec![a, b, c] })?;
    order(OP_SWAP, { let (a, b) = f::OP_SWAP(0u8, 1u8); vec![a, b] })?;
    order(OP_TUCK, { let (a, b, c) = f::OP_TUCK(0u8, 1u8); vec![a, b, c] })?;
    Ok(())
}
pub fn run(ctx: &mut Ctx) {
    ctx.rule("all 256 bytes against the consensus table of names and values; every opcode executed on an independent interpreter over random stacks of the declared input types, the resulting stacks compared with the declared consumption, production and order; distinct by opcode and stack");
    ctx.exhaustive("bytes, names and opcodes", 256, |_, c, i| {
        c.input(format!("byte {:02x}", i));
        c.saw(10);
        table(i as u8, c)
    });
    ctx.exhaustive("name table", 1, |_, c, _| {
        c.input("names");
        for (k, v) in MAP_NAME_TO_ENUM.iter() {
            ensure!(NAMES.iter().any(|x| x.0 == k && x.1 == *v as u8), "{} is mapped to {:02x}", k, *v as u8);
            c.saw(1);
        }
        for (n, b) in NAMES {
            ensure!(from_byte(*b).is_some(), "{} is missing", n);
        }
        stand_ins()
    });
    let ops: Vec<u8> = NAMES.iter().map(|x| x.1).filter(|b| !(0x4c..=0x4e).contains(b)).collect();
    ctx.phase("behaviour", 250_000, 6_000_000, |g, c, i| behave(g, c, ops[i as usize % ops.len()]));
}

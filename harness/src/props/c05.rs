//! C05 script integer arithmetic
use crate::framework::*;
use crate::prng::Gen;
use crate::{ensure, same};
use bitcoin_cash::*;
use std::convert::TryFrom;

const LO: i128 = -0x7fff_ffff;
const HI: i128 = 0x7fff_ffff;
fn ok(v: i128) -> Option<i32> {
    if v >= LO && v <= HI {
        Some(v as i32)
    } else {
        None
    }
}
/// the oracle: exact mathematics over i128
fn bin(op: usize, a: i128, b: i128) -> Option<i32> {
    match op {
        0 => ok(a + b),
        1 => ok(a - b),
        2 => ok(a * b),
        3 if b == 0 => None,
        3 => {
            let q = a.abs() / b.abs();
            ok(if (a < 0) != (b < 0) { -q } else { q })
        }
        4 if b == 0 => None,
        4 => {
            let r = a.abs() % b.abs();
            ok(if a < 0 { -r } else { r })
        }
        5 => ok(a & b),
        6 => ok(a | b),
        _ => ok(a ^ b),
    }
}
const OPS: [&str; 8] = ["+", "-", "*", "/", "%", "&", "|", "^"];
fn lib_rr(op: usize, a: IntegerResult, b: IntegerResult) -> IntegerResult {
    match op {
        0 => a + b,
        1 => a - b,
        2 => a * b,
        3 => a / b,
        4 => a % b,
        5 => a & b,
        6 => a | b,
        _ => a ^ b,
    }
}
fn lib_ii(op: usize, a: Integer, b: Integer) -> IntegerResult {
    match op {
        0 => a + b,
        1 => a - b,
        2 => a * b,
        3 => a / b,
        4 => a % b,
        5 => a & b,
        6 => a | b,
        _ => a ^ b,
    }
}
fn lib_ri(op: usize, a: IntegerResult, b: i32) -> IntegerResult {
    match op {
        0 => a + b,
        1 => a - b,
        2 => a * b,
        3 => a / b,
        4 => a % b,
        5 => a & b,
        6 => a | b,
        _ => a ^ b,
    }
}
fn lib_iw(op: usize, a: Integer, b: i64) -> IntegerResult {
    match op {
        0 => a + b,
        1 => a - b,
        2 => a * b,
        3 => a / b,
        4 => a % b,
        5 => a & b,
        6 => a | b,
        _ => a ^ b,
    }
}
fn val(r: IntegerResult) -> Option<i32> {
    let v = r.value().ok();
    let i = r.integer().ok().map(|i| i.value());
    let t = i32::try_from(r).ok();
    if v == i && v == t {
        v
    } else {
        panic!("value(), integer() and try_from disagree: {:?} {:?} {:?}", v, i, t)
    }
}
fn pair(c: &mut Case, a: i32, b: i32) -> R {
    let (ia, ib) = (Integer::new(a).ok(), Integer::new(b).ok());
    let (ra, rb) = (IntegerResult::new(a), IntegerResult::new(b));
    same!("Integer::new", ia.map(|i| i.value()), ok(a as i128));
    same!("IntegerResult::new", val(ra), ok(a as i128));
    for op in 0..8 {
        let want = if ia.is_some() && ib.is_some() { bin(op, a as i128, b as i128) } else { None };
        same!(format!("{} {} {} (results)", a, OPS[op], b), val(lib_rr(op, ra, rb)), want);
        same!(format!("{} {} {} (result, number)", a, OPS[op], b), val(lib_ri(op, ra, b)), want);
        if let (Some(x), Some(y)) = (ia, ib) {
            same!(format!("{} {} {} (integers)", a, OPS[op], b), val(lib_ii(op, x, y)), want);
        }
        if let Some(x) = ia {
            same!(format!("{} {} {} (integer, i64)", a, OPS[op], b), val(lib_iw(op, x, b as i64)), want);
        }
        c.class_if(want.is_none(), "erroneous result");
        c.class_if(want.is_some(), "exact result");
    }
    // comparisons
    let both = ia.is_some() && ib.is_some();
    let (ord, eq) = (a.cmp(&b), a == b);
    same!(format!("{} == {}", a, b), ra == rb, both && eq);
    same!(format!("{} != {}", a, b), ra != rb, !(both && eq));
    same!(format!("{} <=> {}", a, b), ra.partial_cmp(&rb), if both { Some(ord) } else { None });
    same!(format!("{} == {} (number)", a, b), ra == b, both && eq);
    same!(format!("{} <=> {} (number)", a, b), ra.partial_cmp(&b), if both { Some(ord) } else { None });
    same!("<", ra < rb, both && a < b);
    same!("<=", ra <= rb, both && a <= b);
    same!(">", ra > rb, both && a > b);
    same!(">=", ra >= rb, both && a >= b);
    if let (Some(x), Some(y)) = (ia, ib) {
        same!("Integer ==", x == y, eq);
        same!("Integer partial_cmp", x.partial_cmp(&y), Some(ord));
        same!("Integer cmp", Ord::cmp(&x, &y), ord);
        same!("Integer <", x < y, a < b);
        same!("max", std::cmp::max(x, y).value(), a.max(b));
    }
    c.saw(8 * 4 + 12);
    Ok(())
}
fn unary(c: &mut Case, a: i32, n: u32) -> R {
    let ia = Integer::new(a).ok();
    let ra = IntegerResult::new(a);
    let valid = ia.is_some();
    same!(format!("-{}", a), val(-ra), if valid { Some(-a) } else { None });
    // 32-bit two's-complement shifts; bits leaving the word are dropped, amounts of 32 and more are errors
    let shl = if n < 32 && valid { ok((((a as i64) << n) as u32 as i32) as i128) } else { None };
    let shr = if n < 32 && valid { ok((a as i128).div_euclid(1i128 << n)) } else { None };
    same!(format!("{} << {}", a, n), val(ra << n), shl);
    same!(format!("{} >> {}", a, n), val(ra >> n), shr);
    if let Some(x) = ia {
        same!(format!("-{} (integer)", a), (-x).value(), -a);
        same!(format!("{} << {} (integer)", a, n), val(x << n), shl);
        same!(format!("{} >> {} (integer)", a, n), val(x >> n), shr);
        same!("to_string", x.to_string(), a.to_string());
        same!("deref", *x, a);
        same!("into", i32::from(x), a);
        same!("IntegerResult from Integer", val(IntegerResult::from(x)), Some(a));
    }
    c.saw(10);
    Ok(())
}
fn conv(c: &mut Case, v: i128) -> R {
    let want = ok(v);
    let want_u = if v >= 0 { want } else { None };
    macro_rules! t {
        ($($t:ty)+) => {$(
            if let Ok(x) = <$t>::try_from(v) {
                same!(format!("Integer::new({} as {})", v, stringify!($t)), Integer::new(x).ok().map(|i| i.value()), want);
                same!(format!("Integer::try_from({} as {})", v, stringify!($t)), Integer::try_from(x).ok().map(|i| i.value()), want);
                same!(format!("UInteger::new({} as {})", v, stringify!($t)), UInteger::new(x).ok().map(|i| i.value()), want_u);
                same!(format!("IntegerResult::from({} as {})", v, stringify!($t)), val(IntegerResult::from(x)), want);
                same!(format!("IntegerResult::new({} as {})", v, stringify!($t)), val(IntegerResult::new(x)), want);
                c.saw(5);
            }
        )+};
    }
    t!(i8 u8 i16 u16 i32 u32 i64 u64 i128 isize usize);
    if v >= 0 {
        let x = v as u128;
        same!("Integer::try_from(u128)", Integer::try_from(x).ok().map(|i| i.value()), want);
        same!("IntegerResult::from(u128)", val(IntegerResult::from(x)), want);
        if v > 0 {
            // beyond what signed numbers hold
            for x in [u128::MAX - (v as u128 - 1), (1u128 << 127) + v as u128 - 1].iter().copied().filter(|x| *x > i32::MAX as u128) {
                same!(format!("Integer::new({})", x), Integer::new(x).ok().map(|i| i.value()), None);
                same!(format!("Integer::try_from({})", x), Integer::try_from(x).ok().map(|i| i.value()), None);
                same!(format!("UInteger::new({})", x), UInteger::new(x).ok().map(|i| i.value()), None);
                same!(format!("IntegerResult::from({})", x), val(IntegerResult::from(x)), None);
                same!(format!("IntegerResult::new({})", x), val(IntegerResult::new(x)), None);
                c.saw(5);
            }
        }
    }
    Ok(())
}
fn gen_conv(g: &mut Gen) -> i128 {
    let base: i128 = *g.pick(&[0, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 1 << 32, i64::MAX as i128, u64::MAX as i128, i128::MAX - 5]);
    let v = base + g.below(5) as i128 - if base > 1 << 100 { 0 } else { 2 };
    match g.below(5) {
        0 => -v,
        1 => g.u64() as i64 as i128,
        // small in the low bits only
        4 => {
            let (k, n) = (g.range(1, 9) as i128, g.below(300) as i128 - 150);
            (k << *g.pick(&[8u32, 16, 31, 32, 33, 63, 64, 65, 96, 120])) + n
        }
        2 => g.edge_i32() as i128,
        _ => v,
    }
}
pub fn run(ctx: &mut Ctx) {
    ctx.rule("operand pairs over the whole script range, biased to edges, and errored operands; oracle is exact i128 arithmetic; every operand form of each operator is used");
    let small: Vec<i32> = {
        let mut v: Vec<i32> = (-20..=20).collect();
        for k in &[7, 8, 15, 16, 23, 24, 30, 31] {
            let p = 1i64 << k;
            for d in -2..=2i64 {
                for s in &[1i64, -1] {
                    let x = s * (p + d);
                    if x >= i32::MIN as i64 && x <= i32::MAX as i64 {
                        v.push(x as i32);
                    }
                }
            }
        }
        for x in &[46340, 46341, -46340, -46341, 65535, 65536, i32::MIN, i32::MIN + 1, i32::MIN + 2, i32::MAX, i32::MAX - 1] {
            v.push(*x);
        }
        v.sort();
        v.dedup();
        v
    };
    let k = small.len() as u64;
    ctx.exhaustive("pairs of edge values", k, |_, c, i| {
        let a = small[i as usize];
        c.input(format!("{} with {} edge values", a, k));
        for b in &small {
            pair(c, a, *b)?;
        }
        Ok(())
    });
    ctx.phase("random pairs", 60_000, 5_000_000, |g, c, _| {
        let a = if g.chance(1, 3) { g.u32() as i32 } else { g.edge_i32() };
        let b = match g.below(4) {
            0 => g.u32() as i32,
            1 => g.below(40) as i32 - 20,
            _ => g.edge_i32(),
        };
        // products and sums close to the limit
        let b = if a != 0 && g.chance(1, 4) { (HI as i64 / a as i64) as i32 } else { b };
        let b = if g.chance(1, 6) { (HI as i64 - a as i64).max(i32::MIN as i64).min(i32::MAX as i64) as i32 } else { b };
        c.input(format!("{} and {}", a, b));
        pair(c, a, b)
    });
    ctx.exhaustive("edge values by every shift amount", k, |_, c, i| {
        let a = small[i as usize];
        c.input(format!("{} shifted", a));
        for n in 0..70 {
            unary(c, a, n)?;
        }
        for n in &[127u32, 128, 255, 256, 1 << 16, 1 << 31, u32::MAX] {
            unary(c, a, *n)?;
        }
        Ok(())
    });
    ctx.phase("random unary operations", 40_000, 2_000_000, |g, c, _| {
        let a = if g.chance(1, 2) { g.u32() as i32 } else { g.edge_i32() };
        let n = g.below(34) as u32;
        c.input(format!("{} by {}", a, n));
        unary(c, a, n)
    });
    ctx.phase("conversions", 40_000, 2_000_000, |g, c, i| {
        let v = if i < 70_000 && g.chance(1, 2) { i as i128 - 20_000 } else { gen_conv(g) };
        c.input(format!("number {}", v));
        conv(c, v)
    });
    // expressions: an error anywhere makes the result an error
    ctx.phase("expressions", 20_000, 1_000_000, |g, c, _| {
        let n = 2 + g.below(6);
        let first = g.edge_i32();
        let mut l = IntegerResult::new(first);
        let mut o = ok(first as i128);
        let mut text = format!("{}", first);
        for _ in 0..n {
            let b = if g.chance(1, 2) { g.below(100) as i32 - 50 } else { g.edge_i32() };
            let op = g.below(8);
            let nested = g.chance(1, 5);
            let d = g.below(5) as i32;
            text = format!("({} {} {}{})", text, OPS[op], b, if nested { format!("/{}", d) } else { String::new() });
            let (lb, ob) = if nested { (IntegerResult::new(b) / d, ok(b as i128).and_then(|b| bin(3, b as i128, d as i128))) } else { (IntegerResult::new(b), ok(b as i128)) };
            l = lib_rr(op, l, lb);
            o = match (o, ob) {
                (Some(x), Some(y)) => bin(op, x as i128, y as i128),
                _ => None,
            };
        }
        c.input(text.clone());
        same!(text, val(l), o);
        c.class(if o.is_some() { "expression with a value" } else { "expression with an error" });
        ensure!(l == l || o.is_none(), "{} does not equal itself", text);
        ensure!(o.is_some() || !(l == IntegerResult::new(0)), "errored expression compares equal");
        if o.is_none() {
            let l2 = l;
            ensure!(l != l2 && !(l <= l2) && !(l >= l2) && l.partial_cmp(&l2).is_none(), "errored expression compares with itself");
        }
        c.saw(n);
        Ok(())
    });
}

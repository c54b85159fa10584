//! C04 script numbers
use super::util::*;
use crate::framework::*;
use crate::oracle::{hex, scriptnum, scriptnum_value};
use crate::{ensure, same};
use bitcoin_cash::encoding_utils::{encode_bool, encode_int, encode_minimally, vec_to_int};
use bitcoin_cash::*;

fn one(v: i32) -> R {
    let want = scriptnum(v as i64);
    let got = encode_int(v);
    if got != want {
        return Err(format!("encode_int({}): got {}, expected {}", v, hex(&got), hex(&want)));
    }
    match vec_to_int(&got) {
        Ok(x) if x == v => Ok(()),
        r => Err(format!("vec_to_int(encode_int({})) = {:?}", v, r)),
    }
}
/// trimming to the minimal form keeps the value
fn minimal(b: &[u8]) -> R {
    let mut m = b.to_vec();
    encode_minimally(&mut m);
    if let Some(v) = scriptnum_value(b) {
        if v.abs() < 1 << 60 {
            same!(format!("minimal form of {}", hex(b)), hex(&m), hex(&scriptnum(v as i64)));
        }
    }
    Ok(())
}
/// the minimal form of a string of any length: sign and magnitude kept, no superfluous bytes
fn minimal_any(b: &[u8]) -> R {
    let mut mag = b.to_vec();
    let mut neg = false;
    if let Some(l) = mag.last_mut() {
        neg = *l & 0x80 != 0;
        *l &= 0x7f;
    }
    while mag.last() == Some(&0) {
        mag.pop();
    }
    if let Some(&l) = mag.last() {
        if l & 0x80 != 0 {
            mag.push(if neg { 0x80 } else { 0 });
        } else if neg {
            *mag.last_mut().unwrap() |= 0x80;
        }
    }
    let mut m = b.to_vec();
    encode_minimally(&mut m);
    same!(format!("minimal form of {} bytes {}", b.len(), hex(b)), hex(&m), hex(&mag));
    Ok(())
}
fn op_level(v: i32) -> R {
    let op = Op::from_int(v);
    same!("Op::from_int().to_integer()", op.to_integer().map(|i| i.value()), Some(v));
    let ser = Script::from_ops(vec![op.clone()]).ser_ops();
    same!("pushed integer", hex(&ser), hex(&op_bytes(&op)));
    let back = Script::deser_ops(ser).map_err(|e| e.to_string())?;
    same!("operations", back.ops_arc().len(), 1);
    same!("decoded integer", back.ops_arc()[0].op.to_integer().map(|i| i.value()), Some(v));
    Ok(())
}
fn decode(b: &[u8]) -> R {
    let exact = scriptnum_value(b);
    let r = vec_to_int(b);
    match (&r, exact) {
        (Ok(v), Some(e)) if *v as i128 == e => {}
        (Ok(v), e) => return Err(format!("vec_to_int({}) = {}, the bytes denote {:?}", hex(b), v, e)),
        (Err(m), Some(e)) => {
            ensure!(b.len() > 4, "vec_to_int({}) fails ({}), the bytes denote {}", hex(b), m, e);
        }
        (Err(_), None) => {}
    }
    let i = Op::PushByteArray { array: b.to_vec().into(), is_minimal: true }.to_integer();
    match (i, exact) {
        (Some(v), Some(e)) => same!(format!("to_integer of push {}", hex(b)), v.value() as i128, e),
        (Some(v), None) => return Err(format!("to_integer of push {} = {}, which is not its value", hex(b), v)),
        (None, _) => ensure!(b.len() > 4, "to_integer of push {} fails", hex(b)),
    }
    Ok(())
}
pub fn run(ctx: &mut Ctx) {
    ctx.rule("all integers of a window plus edge values through encode and decode; all byte strings of up to 2 (quick) or 3 (thorough) bytes and random longer ones; each case of a chunk phase covers 65536 values");
    // thorough: the whole 32-bit range in 65536-value chunks
    let chunks = if ctx.thorough() { 65_536 } else { 96 };
    ctx.exhaustive("integers by chunk", chunks, |g, c, i| {
        let base: i64 = if chunks == 65_536 {
            -0x8000_0000 + i as i64 * 65536
        } else {
            match i {
                0..=7 => (i as i64 - 4) * 65536,
                8..=11 => 0x7fff_ffff - (i as i64 - 8) * 65536 - 65535,
                12..=15 => -0x7fff_ffff + (i as i64 - 12) * 65536,
                16..=63 => {
                    let k = 1i64 << (8 + (i - 16) / 2);
                    (if i % 2 == 0 { k } else { -k }) - 32768
                }
                _ => g.u32() as i32 as i64,
            }
        };
        c.input(format!("integers {}..{}", base, base + 65535));
        for k in 0..65536 {
            let v = base + k;
            if v < -0x7fff_ffff || v > 0x7fff_ffff {
                continue;
            }
            one(v as i32)?;
        }
        c.saw(65536);
        Ok(())
    });
    ctx.phase("integers through operations", 30_000, 2_000_000, |g, c, i| {
        let v = if i < 2000 { i as i32 - 1000 } else { g.edge_i32() };
        if v == i32::MIN {
            c.trivial();
            return Ok(());
        }
        c.input(format!("integer {}", v));
        one(v)?;
        op_level(v)?;
        same!("Integer display", Integer::new(v).unwrap().to_string(), v.to_string());
        c.saw(6);
        Ok(())
    });
    ctx.exhaustive("byte strings of up to two bytes", 257, |_, c, i| {
        if i == 0 {
            c.input("empty and one-byte strings");
            decode(&[])?;
            minimal(&[])?;
            same!("true", hex(&encode_bool(true)), "01");
            same!("false", hex(&encode_bool(false)), "");
            for b in 0..=255u8 {
                decode(&[b])?;
                minimal(&[b])?;
            }
        } else {
            c.input(format!("two-byte strings starting {:02x}", i - 1));
            for b in 0..=255u8 {
                decode(&[(i - 1) as u8, b])?;
                minimal(&[(i - 1) as u8, b])?;
            }
        }
        c.saw(256);
        Ok(())
    });
    ctx.phase("three-byte strings", 16, 256, |g, c, i| {
        let a = if i < 8 { [0u8, 1, 0x7f, 0x80, 0x81, 0xff, 0xfe, 0x10][i as usize] } else { i as u8 };
        let a = if g.chance(0, 1) { 0 } else { a };
        c.input(format!("three-byte strings starting {:02x}", a));
        for k in 0..65536u32 {
            decode(&[a, (k >> 8) as u8, k as u8])?;
            minimal_any(&[a, (k >> 8) as u8, k as u8])?;
        }
        c.saw(65536);
        Ok(())
    });
    ctx.phase("longer byte strings", 120_000, 6_000_000, |g, c, _| {
        let n = *g.pick(&[4usize, 4, 4, 5, 5, 6, 8, 12, 16, 17, 20, 40, 300]);
        let mut b = g.bytes(n);
        match g.below(5) {
            0 => {
                for x in b.iter_mut() {
                    *x = *g.pick(&[0, 0, 0x80, 0xff, 0x7f, 1]);
                }
            }
            1 => {
                // a small number padded with zeros
                let k = 1 + g.below(4);
                for x in b.iter_mut().skip(k) {
                    *x = 0;
                }
                if g.chance(1, 2) {
                    b[n - 1] |= 0x80;
                }
            }
            2 => {
                for x in b.iter_mut().take(4) {
                    *x = 0xff;
                }
                for x in b.iter_mut().skip(4) {
                    *x = 0;
                }
                b[n - 1] ^= *g.pick(&[0, 0x80, 1, 0x81]);
            }
            _ => {}
        }
        c.input(hex(&b));
        c.class(format!("string of {} bytes {}", n, match scriptnum_value(&b) {
            Some(v) if v.abs() <= 0x7fff_ffff => "in range",
            _ => "out of range",
        }));
        decode(&b)?;
        // minimal re-encoding of any representable string
        minimal(&b)?;
        minimal_any(&b)?;
        c.saw(4);
        Ok(())
    });
    // every length up to well beyond what a script may push
    ctx.exhaustive("every length", 1100, |g, c, i| {
        let n = i as usize;
        c.input(format!("strings of {} bytes", n));
        let small = 1 + g.below(5).min(n.max(1) - 1);
        for k in 0..12 {
            let mut b = g.bytes(n);
            match k % 6 {
                0 => {}
                1 => b.iter_mut().skip(small).for_each(|x| *x = 0),
                2 => b.iter_mut().for_each(|x| *x = 0),
                3 => {
                    let keep = g.below(n + 1);
                    b.iter_mut().skip(keep).for_each(|x| *x = 0);
                }
                4 => b.iter_mut().for_each(|x| *x = 0xff),
                _ => {
                    b.iter_mut().skip(small).for_each(|x| *x = 0);
                    if n > 0 {
                        b[n - 1] = *g.pick(&[1u8, 0x7f, 0x80, 0x81, 0xff]);
                    }
                }
            }
            if k >= 6 && n > 0 {
                b[n - 1] |= 0x80;
            }
            decode(&b)?;
            minimal_any(&b)?;
        }
        c.saw(24);
        Ok(())
    });
}

//! Independent oracles, written from the specifications; they share no code with the crates in /repo.
pub mod cashaddr;
pub mod ec;
pub mod hash;
pub mod interp;
pub mod script;
pub mod slp;
pub mod tx;

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(std::char::from_digit((x >> 4) as u32, 16).unwrap());
        s.push(std::char::from_digit((x & 15) as u32, 16).unwrap());
    }
    s
}
pub fn unhex(s: &str) -> Option<Vec<u8>> {
    let b: Vec<u8> = s.bytes().collect();
    if b.len() % 2 != 0 {
        return None;
    }
    b.chunks(2)
        .map(|c| {
            let h = (c[0] as char).to_digit(16)?;
            let l = (c[1] as char).to_digit(16)?;
            Some((h * 16 + l) as u8)
        })
        .collect()
}
pub fn rev(b: &[u8]) -> Vec<u8> {
    b.iter().rev().cloned().collect()
}

/// Bitcoin compact size
pub fn compact(n: u64) -> Vec<u8> {
    if n < 0xfd {
        vec![n as u8]
    } else if n <= 0xffff {
        let mut v = vec![0xfd];
        v.extend_from_slice(&(n as u16).to_le_bytes());
        v
    } else if n <= 0xffff_ffff {
        let mut v = vec![0xfe];
        v.extend_from_slice(&(n as u32).to_le_bytes());
        v
    } else {
        let mut v = vec![0xff];
        v.extend_from_slice(&n.to_le_bytes());
        v
    }
}
/// reads a compact size at `pos`; returns (value, new position)
pub fn read_compact(d: &[u8], pos: usize) -> Option<(u64, usize)> {
    let f = *d.get(pos)?;
    let take = |n: usize| -> Option<u64> {
        let s = d.get(pos + 1..pos + 1 + n)?;
        let mut v = 0u64;
        for (i, b) in s.iter().enumerate() {
            v |= (*b as u64) << (8 * i);
        }
        Some(v)
    };
    match f {
        0xfd => Some((take(2)?, pos + 3)),
        0xfe => Some((take(4)?, pos + 5)),
        0xff => Some((take(8)?, pos + 9)),
        n => Some((n as u64, pos + 1)),
    }
}

/// Minimal script-number encoding (little-endian sign-magnitude) of any i64
pub fn scriptnum(v: i64) -> Vec<u8> {
    let mut out = vec![];
    let mut a = v.unsigned_abs();
    while a > 0 {
        out.push((a & 0xff) as u8);
        a >>= 8;
    }
    if let Some(l) = out.last().cloned() {
        if l & 0x80 != 0 {
            out.push(if v < 0 { 0x80 } else { 0 });
        } else if v < 0 {
            let n = out.len();
            out[n - 1] |= 0x80;
        }
    }
    out
}
/// The exact value a byte string denotes (arbitrary length), None when it exceeds i128
pub fn scriptnum_value(b: &[u8]) -> Option<i128> {
    if b.is_empty() {
        return Some(0);
    }
    let neg = b[b.len() - 1] & 0x80 != 0;
    let mut v: i128 = 0;
    for (i, x) in b.iter().enumerate() {
        let x = if i == b.len() - 1 { x & 0x7f } else { *x } as i128;
        if x != 0 {
            if i >= 15 {
                return None;
            }
            v |= x << (8 * i);
        }
    }
    Some(if neg { -v } else { v })
}

pub fn self_test() {
    hash::self_test().unwrap();
    assert_eq!(compact(252), vec![252]);
    assert_eq!(compact(253), vec![0xfd, 253, 0]);
    assert_eq!(compact(0x10000), vec![0xfe, 0, 0, 1, 0]);
    assert_eq!(compact(1 << 32), vec![0xff, 0, 0, 0, 0, 1, 0, 0, 0]);
    for n in &[0u64, 252, 253, 65535, 65536, 0xffff_ffff, 0x1_0000_0000, u64::MAX] {
        assert_eq!(read_compact(&compact(*n), 0), Some((*n, compact(*n).len())));
    }
    for (v, h) in &[(0i64, ""), (1, "01"), (-1, "81"), (127, "7f"), (128, "8000"), (-128, "8080"), (255, "ff00"), (256, "0001"), (-255, "ff80"), (0x7fffffff, "ffffff7f"), (-0x7fffffff, "ffffffff")] {
        assert_eq!(hex(&scriptnum(*v)), *h);
        assert_eq!(scriptnum_value(&scriptnum(*v)), Some(*v as i128));
    }
    script::self_test();
    cashaddr::self_test();
    ec::self_test();
    tx::self_test();
    slp::self_test();
    interp::self_test();
}

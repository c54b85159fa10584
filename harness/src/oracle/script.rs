//! Consensus script tokenizer and push encoders.
use crate::prng::Gen;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Tok {
    /// any byte that carries no payload (0x00 included)
    Op(u8),
    /// push opcode byte (0x01..0x4e) and its payload
    Push(u8, Vec<u8>),
}

pub fn tokenize(b: &[u8]) -> Option<Vec<Tok>> {
    let mut i = 0;
    let mut out = vec![];
    while i < b.len() {
        let op = b[i];
        i += 1;
        let nlen = match op {
            0x01..=0x4b => 0,
            0x4c => 1,
            0x4d => 2,
            0x4e => 4,
            _ => {
                out.push(Tok::Op(op));
                continue;
            }
        };
        let mut len = if nlen == 0 { op as usize } else { 0 };
        for k in 0..nlen {
            len |= (*b.get(i + k)? as usize) << (8 * k);
        }
        i += nlen;
        let end = i.checked_add(len)?;
        out.push(Tok::Push(op, b.get(i..end)?.to_vec()));
        i = end;
    }
    Some(out)
}

/// length-prefixed push, never a small-integer opcode; the empty string is 4c00
pub fn push_prefixed(d: &[u8]) -> Vec<u8> {
    let mut v = match d.len() {
        0 => vec![0x4c, 0],
        n @ 1..=0x4b => vec![n as u8],
        n @ 0x4c..=0xff => vec![0x4c, n as u8],
        n @ 0x100..=0xffff => vec![0x4d, n as u8, (n >> 8) as u8],
        n => {
            let mut v = vec![0x4e];
            v.extend_from_slice(&(n as u32).to_le_bytes());
            v
        }
    };
    v.extend_from_slice(d);
    v
}
/// shortest push
pub fn push_minimal(d: &[u8]) -> Vec<u8> {
    match d {
        [] => vec![0],
        [n @ 1..=16] => vec![0x50 + n],
        [0x81] => vec![0x4f],
        _ => push_prefixed(d),
    }
}
/// the push a tokenised push should be re-encoded to by a library that keeps one "minimal" bit per push
pub fn normalised_push(op: u8, d: &[u8]) -> Vec<u8> {
    if push_minimal(d)[0] == op {
        push_minimal(d)
    } else {
        push_prefixed(d)
    }
}
pub fn is_minimal(op: u8, d: &[u8]) -> bool {
    push_minimal(d)[0] == op
}
pub fn encode_tok(t: &Tok) -> Vec<u8> {
    match t {
        Tok::Op(o) => vec![*o],
        Tok::Push(op, d) => {
            let mut v = vec![*op];
            match op {
                0x4c => v.push(d.len() as u8),
                0x4d => v.extend_from_slice(&(d.len() as u16).to_le_bytes()),
                0x4e => v.extend_from_slice(&(d.len() as u32).to_le_bytes()),
                _ => {}
            }
            v.extend_from_slice(d);
            v
        }
    }
}
pub fn encode(t: &[Tok]) -> Vec<u8> {
    t.iter().flat_map(encode_tok).collect()
}
pub fn normalise(t: &[Tok]) -> Vec<u8> {
    t.iter()
        .flat_map(|t| match t {
            Tok::Op(o) => vec![*o],
            Tok::Push(op, d) => normalised_push(*op, d),
        })
        .collect()
}
/// an over-long push: its length field is wider than its length needs (4c00 is the library's own form)
pub fn has_overlong(t: &[Tok]) -> bool {
    normalise(t) != encode(t)
}
/// random token; `overlong` allows push opcodes wider than needed
pub fn gen_tok(g: &mut Gen, overlong: bool, big: bool) -> Tok {
    match g.below(10) {
        0..=3 => loop {
            let b = match g.below(3) {
                0 => *g.pick(&[0u8, 0x4f, 0x50, 0x51, 0x60, 0x61, 0x63, 0x67, 0x68, 0x69, 0x6a, 0x75, 0x76, 0x87, 0x88, 0xa9, 0xab, 0xac, 0xae, 0xb1, 0xb2, 0xba, 0xbb, 0xbc, 0xbd, 0xbe, 0xff]),
                _ => g.u8(),
            };
            if !(0x01..=0x4e).contains(&b) {
                return Tok::Op(b);
            }
        },
        4 => {
            // one-byte payload
            let b = if g.chance(1, 2) { *g.pick(&[0u8, 1, 15, 16, 17, 0x7f, 0x80, 0x81, 0x82, 0xff]) } else { g.u8() };
            let op = if overlong && g.chance(1, 4) { *g.pick(&[0x4cu8, 0x4d, 0x4e]) } else { 1 };
            Tok::Push(op, vec![b])
        }
        _ => {
            let n = g.edge_len(big);
            let d = g.bytes(n);
            if n == 0 {
                return if g.chance(1, 2) {
                    Tok::Op(0)
                } else if overlong && g.chance(1, 2) {
                    Tok::Push(*g.pick(&[0x4du8, 0x4e]), d)
                } else {
                    Tok::Push(0x4c, d)
                };
            }
            let mut ops: Vec<u8> = vec![];
            if n <= 0x4b {
                ops.push(n as u8);
            }
            if n <= 0xff {
                ops.push(0x4c);
            }
            if n <= 0xffff {
                ops.push(0x4d);
            }
            ops.push(0x4e);
            let op = if overlong && g.chance(1, 4) { *g.pick(&ops) } else { ops[0] };
            Tok::Push(op, d)
        }
    }
}
pub fn gen_script(g: &mut Gen, max: usize, overlong: bool, big: bool) -> Vec<Tok> {
    let n = if g.chance(1, 10) { 0 } else { g.below(max + 1) };
    (0..n).map(|_| gen_tok(g, overlong, big)).collect()
}

pub fn self_test() {
    let b = super::unhex("0051014c4c0102ac4d01000381").unwrap();
    let t = tokenize(&b).unwrap();
    assert_eq!(
        t,
        vec![Tok::Op(0), Tok::Op(0x51), Tok::Push(1, vec![0x4c]), Tok::Push(0x4c, vec![2]), Tok::Op(0xac), Tok::Push(0x4d, vec![3]), Tok::Op(0x81)]
    );
    assert_eq!(encode(&t), b);
    assert_eq!(super::hex(&normalise(&t)), "0051014c0102ac010381");
    assert!(has_overlong(&t));
    assert!(tokenize(&[0x4c]).is_none() && tokenize(&[2, 1]).is_none() && tokenize(&[0x4e, 255, 255, 255, 255, 0]).is_none());
    assert_eq!(push_minimal(&[0x81]), vec![0x4f]);
    assert_eq!(push_minimal(&[16]), vec![0x60]);
    assert_eq!(push_minimal(&[0]), vec![1, 0]);
}

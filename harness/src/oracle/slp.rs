//! Strict SLP token-type-1 / NFT1 parser for data outputs (GENESIS and SEND).
#[derive(Debug, PartialEq, Eq)]
pub enum Slp {
    Genesis { token_type: u8, ticker: Vec<u8>, name: Vec<u8>, url: Vec<u8>, hash: Vec<u8>, decimals: u8, baton: Option<u8>, qty: u64 },
    Send { token_type: u8, token_id: Vec<u8>, amounts: Vec<u64> },
}
/// every element must be a push by 0x01..0x4e; OP_0, OP_1NEGATE and OP_1..16 are not allowed
fn chunks(s: &[u8]) -> Result<Vec<Vec<u8>>, String> {
    if s.first() != Some(&0x6a) {
        return Err("not an OP_RETURN output".into());
    }
    let mut i = 1;
    let mut out = vec![];
    while i < s.len() {
        let op = s[i];
        i += 1;
        let (n, l) = match op {
            1..=0x4b => (0, op as usize),
            0x4c => (1, *s.get(i).ok_or("truncated")? as usize),
            0x4d => (2, s.get(i..i + 2).map(|x| x[0] as usize | (x[1] as usize) << 8).ok_or("truncated")?),
            0x4e => (4, s.get(i..i + 4).map(|x| u32::from_le_bytes([x[0], x[1], x[2], x[3]]) as usize).ok_or("truncated")?),
            _ => return Err(format!("opcode {:02x} is not a push allowed by SLP", op)),
        };
        i += n;
        out.push(s.get(i..i.checked_add(l).ok_or("overflow")?).ok_or("truncated push")?.to_vec());
        i += l;
    }
    Ok(out)
}
fn be64(b: &[u8]) -> Result<u64, String> {
    if b.len() != 8 {
        return Err(format!("quantity has {} bytes", b.len()));
    }
    Ok(b.iter().fold(0, |a, x| a << 8 | *x as u64))
}
pub fn parse(s: &[u8]) -> Result<Slp, String> {
    let c = chunks(s)?;
    if c.len() < 3 {
        return Err("too few chunks".into());
    }
    if c[0] != b"SLP\0" {
        return Err("bad lokad id".into());
    }
    let token_type = match c[1].as_slice() {
        [t] | [0, t] if [1u8, 0x41, 0x81].contains(t) => *t,
        _ => return Err(format!("bad token type {:02x?}", c[1])),
    };
    match c[2].as_slice() {
        b"GENESIS" => {
            if c.len() != 10 {
                return Err(format!("GENESIS with {} chunks", c.len()));
            }
            if c[6].len() != 0 && c[6].len() != 32 {
                return Err(format!("document hash of {} bytes", c[6].len()));
            }
            if c[7].len() != 1 || c[7][0] > 9 {
                return Err(format!("bad decimals {:02x?}", c[7]));
            }
            let baton = match c[8].as_slice() {
                [] => None,
                [v] if *v >= 2 => Some(*v),
                x => return Err(format!("bad mint baton vout {:02x?}", x)),
            };
            Ok(Slp::Genesis { token_type, ticker: c[3].clone(), name: c[4].clone(), url: c[5].clone(), hash: c[6].clone(), decimals: c[7][0], baton, qty: be64(&c[9])? })
        }
        b"SEND" => {
            if c.len() < 5 || c.len() > 4 + 19 {
                return Err(format!("SEND with {} chunks", c.len()));
            }
            if c[3].len() != 32 {
                return Err("token id is not 32 bytes".into());
            }
            Ok(Slp::Send { token_type, token_id: c[3].clone(), amounts: c[4..].iter().map(|x| be64(x)).collect::<Result<_, _>>()? })
        }
        x => Err(format!("transaction type {:02x?}", x)),
    }
}
pub fn self_test() {
    let s = super::unhex("6a04534c500001010747454e45534953044142434404546573744c004c0001084c00080000000000000064").unwrap();
    assert_eq!(
        parse(&s),
        Ok(Slp::Genesis { token_type: 1, ticker: b"ABCD".to_vec(), name: b"Test".to_vec(), url: vec![], hash: vec![], decimals: 8, baton: None, qty: 100 })
    );
    assert!(parse(&super::unhex("6a04534c500051").unwrap()).is_err());
}

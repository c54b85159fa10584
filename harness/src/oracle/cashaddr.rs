//! CashAddr per the specification, plus a forger that puts a valid checksum on any payload.
const ALPHABET: &[u8; 32] = b"qpzry9x8gf2tvdw0s3jn54khce6mua7l";

fn polymod(v: &[u8]) -> u64 {
    const G: [u64; 5] = [0x98f2bc8e61, 0x79b76d99e2, 0xf33e5fb3c4, 0xae2eabe2a8, 0x1e4f43e470];
    let mut c: u64 = 1;
    for d in v {
        let c0 = c >> 35;
        c = ((c & 0x0007_ffff_ffff) << 5) ^ (*d as u64);
        for (i, g) in G.iter().enumerate() {
            if (c0 >> i) & 1 == 1 {
                c ^= g;
            }
        }
    }
    c ^ 1
}
/// checksum-complete body for arbitrary 5-bit symbols
pub fn forge(prefix: &str, payload5: &[u8]) -> String {
    let mut v: Vec<u8> = prefix.bytes().map(|b| b & 31).collect();
    v.push(0);
    v.extend_from_slice(payload5);
    v.extend_from_slice(&[0; 8]);
    let c = polymod(&v);
    let mut s: Vec<u8> = payload5.iter().map(|x| ALPHABET[*x as usize]).collect();
    for i in 0..8 {
        s.push(ALPHABET[((c >> (5 * (7 - i))) & 31) as usize]);
    }
    String::from_utf8(s).unwrap()
}
pub fn to5(data: &[u8]) -> Vec<u8> {
    let mut bits: Vec<u8> = data.iter().flat_map(|b| (0..8).rev().map(move |i| (b >> i) & 1)).collect();
    while bits.len() % 5 != 0 {
        bits.push(0);
    }
    bits.chunks(5).map(|c| c.iter().fold(0, |a, b| a * 2 + b)).collect()
}
pub fn encode_body(prefix: &str, version: u8, hash: &[u8]) -> String {
    let mut d = vec![version];
    d.extend_from_slice(hash);
    forge(prefix, &to5(&d))
}
pub fn encode(prefix: &str, p2sh: bool, hash: &[u8; 20]) -> String {
    format!("{}:{}", prefix, encode_body(prefix, if p2sh { 8 } else { 0 }, hash))
}
/// strict decoder (letter case aside): prefix, P2SH?, hash
pub fn decode(default_prefix: &str, s: &str) -> Result<(String, bool, [u8; 20]), &'static str> {
    let s: String = s.chars().map(|c| if c.is_ascii_uppercase() { (c as u8 + 32) as char } else { c }).collect();
    let mut parts = s.splitn(2, ':');
    let first = parts.next().unwrap();
    let (prefix, body) = match parts.next() {
        Some(b) => (first, b),
        None => (default_prefix, first),
    };
    let mut five = vec![];
    for b in body.bytes() {
        five.push(ALPHABET.iter().position(|c| *c == b).ok_or("letter")? as u8);
    }
    if !checksum_ok(prefix, body) {
        return Err("checksum");
    }
    if five.len() < 8 {
        return Err("too short");
    }
    let bits: Vec<u8> = five[..five.len() - 8].iter().flat_map(|b| (0..5).rev().map(move |i| (b >> i) & 1)).collect();
    let whole = bits.len() / 8 * 8;
    if bits.len() - whole >= 5 {
        return Err("excess symbol");
    }
    if bits[whole..].iter().any(|b| *b != 0) {
        return Err("non-zero padding");
    }
    let bytes: Vec<u8> = bits[..whole].chunks(8).map(|c| c.iter().fold(0, |a, b| a * 2 + b)).collect();
    if bytes.is_empty() {
        return Err("empty payload");
    }
    let p2sh = match bytes[0] {
        0 => false,
        8 => true,
        _ => return Err("version"),
    };
    if bytes.len() != 21 {
        return Err("size");
    }
    let mut h = [0; 20];
    h.copy_from_slice(&bytes[1..]);
    Ok((prefix.to_string(), p2sh, h))
}
pub fn checksum_ok(prefix: &str, body: &str) -> bool {
    let mut v: Vec<u8> = prefix.bytes().map(|b| b & 31).collect();
    v.push(0);
    for b in body.bytes() {
        match ALPHABET.iter().position(|c| *c == b) {
            Some(i) => v.push(i as u8),
            None => return false,
        }
    }
    polymod(&v) == 0
}
pub fn alphabet() -> &'static [u8; 32] {
    ALPHABET
}
pub fn self_test() {
    // test vectors of the CashAddr specification
    let h = super::unhex("F5BF48B397DAE70BE82B3CCA4793F8EB2B6CDAC9").unwrap();
    let mut a = [0; 20];
    a.copy_from_slice(&h);
    assert_eq!(encode("bitcoincash", false, &a), "bitcoincash:qr6m7j9njldwwzlg9v7v53unlr4jkmx6eylep8ekg2");
    assert_eq!(format!("bchtest:{}", encode_body("bchtest", 8, &h)), "bchtest:pr6m7j9njldwwzlg9v7v53unlr4jkmx6eyvwc0uz5t");
    assert!(checksum_ok("prefix", "x64nx6hz") && checksum_ok("p", "gpf8m4h7") && checksum_ok("bitcoincash", "qpzry9x8gf2tvdw0s3jn54khce6mua7lcw20ayyn"));
    assert_eq!(decode("x", &encode("bchtest", true, &a)), Ok(("bchtest".to_string(), true, a)));
    let (p, b) = { let s = encode("bitcoincash", true, &a); let i = s.find(':').unwrap(); (s[..i].to_string(), s[i + 1..].to_string()) };
    assert!(checksum_ok(&p, &b));
}

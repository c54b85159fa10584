//! secp256k1 from the textbook: Jacobian arithmetic over num-bigint, ECDSA verification, strict DER.
use num::bigint::BigUint;
use num::{One, Zero};

fn hexn(s: &str) -> BigUint {
    BigUint::parse_bytes(s.as_bytes(), 16).unwrap()
}
thread_local! {
    static P: BigUint = hexn("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f");
    static N: BigUint = hexn("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141");
    static GT: Vec<Pt> = {
        let mut v = vec![Pt {
            x: hexn("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"),
            y: hexn("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8"),
            z: BigUint::one(),
        }];
        for i in 0..255 {
            let d = dbl(&v[i]);
            v.push(d);
        }
        v
    };
}
pub fn p() -> BigUint {
    P.with(|x| x.clone())
}
pub fn n() -> BigUint {
    N.with(|x| x.clone())
}
#[derive(Clone, Debug)]
pub struct Pt {
    x: BigUint,
    y: BigUint,
    z: BigUint,
}
fn mul(a: &BigUint, b: &BigUint) -> BigUint {
    P.with(|p| a * b % p)
}
fn sub(a: &BigUint, b: &BigUint) -> BigUint {
    P.with(|p| ((a + p) - b) % p)
}
fn add(a: &BigUint, b: &BigUint) -> BigUint {
    P.with(|p| (a + b) % p)
}
fn inf() -> Pt {
    Pt { x: BigUint::one(), y: BigUint::one(), z: BigUint::zero() }
}
fn dbl(a: &Pt) -> Pt {
    if a.z.is_zero() || a.y.is_zero() {
        return inf();
    }
    let yy = mul(&a.y, &a.y);
    let s = mul(&mul(&a.x, &yy), &BigUint::from(4u8));
    let m = mul(&mul(&a.x, &a.x), &BigUint::from(3u8));
    let x = sub(&mul(&m, &m), &add(&s, &s));
    let y = sub(&mul(&m, &sub(&s, &x)), &mul(&mul(&yy, &yy), &BigUint::from(8u8)));
    let z = mul(&add(&a.y, &a.y), &a.z);
    Pt { x, y, z }
}
fn padd(a: &Pt, b: &Pt) -> Pt {
    if a.z.is_zero() {
        return b.clone();
    }
    if b.z.is_zero() {
        return a.clone();
    }
    let z1 = mul(&a.z, &a.z);
    let z2 = mul(&b.z, &b.z);
    let u1 = mul(&a.x, &z2);
    let u2 = mul(&b.x, &z1);
    let s1 = mul(&a.y, &mul(&z2, &b.z));
    let s2 = mul(&b.y, &mul(&z1, &a.z));
    if u1 == u2 {
        return if s1 == s2 { dbl(a) } else { inf() };
    }
    let h = sub(&u2, &u1);
    let r = sub(&s2, &s1);
    let hh = mul(&h, &h);
    let hhh = mul(&hh, &h);
    let v = mul(&u1, &hh);
    let x = sub(&sub(&mul(&r, &r), &hhh), &add(&v, &v));
    let y = sub(&mul(&r, &sub(&v, &x)), &mul(&s1, &hhh));
    let z = mul(&h, &mul(&a.z, &b.z));
    Pt { x, y, z }
}
fn bit(k: &BigUint, i: usize) -> bool {
    (k >> i) & BigUint::one() == BigUint::one()
}
fn gmul(k: &BigUint) -> Pt {
    let mut r = inf();
    let by = k.to_bytes_le();
    GT.with(|g| {
        for (i, t) in g.iter().enumerate() {
            if by.get(i / 8).map_or(false, |b| (b >> (i % 8)) & 1 == 1) {
                r = padd(&r, t);
            }
        }
    });
    r
}
fn pmul(q: &Pt, k: &BigUint) -> Pt {
    let mut r = inf();
    for i in (0..k.bits() as usize).rev() {
        r = dbl(&r);
        if bit(k, i) {
            r = padd(&r, q);
        }
    }
    r
}
fn affine(a: &Pt) -> Option<(BigUint, BigUint)> {
    if a.z.is_zero() {
        return None;
    }
    let zi = a.z.modpow(&(p() - BigUint::from(2u8)), &p());
    let z2 = mul(&zi, &zi);
    Some((mul(&a.x, &z2), mul(&a.y, &mul(&z2, &zi))))
}
pub fn be32(a: &BigUint) -> [u8; 32] {
    let b = a.to_bytes_be();
    let mut o = [0; 32];
    o[32 - b.len()..].copy_from_slice(&b);
    o
}
pub fn valid_secret(k: &[u8]) -> bool {
    k.len() == 32 && {
        let k = BigUint::from_bytes_be(k);
        !k.is_zero() && k < n()
    }
}
/// compressed public key of a valid secret
pub fn pubkey(secret: &[u8]) -> [u8; 33] {
    let (x, y) = affine(&gmul(&BigUint::from_bytes_be(secret))).unwrap();
    let mut o = [0; 33];
    o[0] = if bit(&y, 0) { 3 } else { 2 };
    o[1..].copy_from_slice(&be32(&x));
    o
}
pub fn parse_compressed(pk: &[u8]) -> Option<Pt> {
    if pk.len() != 33 || (pk[0] != 2 && pk[0] != 3) {
        return None;
    }
    let x = BigUint::from_bytes_be(&pk[1..]);
    if x >= p() {
        return None;
    }
    let y2 = add(&mul(&mul(&x, &x), &x), &BigUint::from(7u8));
    let y = y2.modpow(&((p() + BigUint::one()) >> 2), &p());
    if mul(&y, &y) != y2 {
        return None;
    }
    let y = if bit(&y, 0) != (pk[0] == 3) { p() - y } else { y };
    Some(Pt { x, y, z: BigUint::one() })
}
/// textbook ECDSA (does not require low S)
pub fn verify(pk: &[u8], msg: &[u8], r: &BigUint, s: &BigUint) -> bool {
    let q = match parse_compressed(pk) {
        Some(q) => q,
        None => return false,
    };
    let nn = n();
    if r.is_zero() || s.is_zero() || *r >= nn || *s >= nn || msg.len() != 32 {
        return false;
    }
    let w = s.modpow(&(&nn - BigUint::from(2u8)), &nn);
    let z = BigUint::from_bytes_be(msg);
    let u1 = z * &w % &nn;
    let u2 = r * &w % &nn;
    match affine(&padd(&gmul(&u1), &pmul(&q, &u2))) {
        Some((x, _)) => x % &nn == *r,
        None => false,
    }
}
fn der_int(v: &BigUint) -> Vec<u8> {
    let mut b = v.to_bytes_be();
    if b[0] & 0x80 != 0 {
        b.insert(0, 0);
    }
    let mut o = vec![2, b.len() as u8];
    o.extend(b);
    o
}
pub fn der(r: &BigUint, s: &BigUint) -> Vec<u8> {
    let mut b = der_int(r);
    b.extend(der_int(s));
    let mut o = vec![0x30, b.len() as u8];
    o.extend(b);
    o
}
/// strict DER (canonical integers, no trailing bytes)
pub fn parse_der(sig: &[u8]) -> Option<(BigUint, BigUint)> {
    if sig.len() < 8 || sig[0] != 0x30 || sig[1] as usize != sig.len() - 2 {
        return None;
    }
    let int = |p: usize| -> Option<(BigUint, usize)> {
        if *sig.get(p)? != 2 {
            return None;
        }
        let l = *sig.get(p + 1)? as usize;
        let b = sig.get(p + 2..p + 2 + l)?;
        if l == 0 || b[0] & 0x80 != 0 || (l > 1 && b[0] == 0 && b[1] & 0x80 == 0) {
            return None;
        }
        Some((BigUint::from_bytes_be(b), p + 2 + l))
    };
    let (r, p) = int(2)?;
    let (s, p) = int(p)?;
    if p != sig.len() {
        return None;
    }
    Some((r, s))
}
pub fn is_low_s(s: &BigUint) -> bool {
    *s <= n() >> 1
}
pub fn verify_der(pk: &[u8], msg: &[u8], sig: &[u8]) -> bool {
    parse_der(sig).map_or(false, |(r, s)| verify(pk, msg, &r, &s))
}
pub fn self_test() {
    // generator, its double, and (n-1)G
    let mut k = [0u8; 32];
    k[31] = 1;
    assert_eq!(super::hex(&pubkey(&k)), "0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798");
    k[31] = 2;
    assert_eq!(super::hex(&pubkey(&k)), "02c6047f9441ed7d6d3045406e95c07cd85c778e4b8cef3ca7abac09b95c709ee5");
    let m = be32(&(n() - BigUint::one()));
    assert_eq!(super::hex(&pubkey(&m)), "0379be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798");
    // sign with a chosen nonce, verify, and reject a changed message
    let d = hexn("123456789abcdef0fedcba9876543210deadbeef");
    let kk = hexn("9999999999999999999999999999999999999999aaaaaaaa");
    let z = hexn("4242424242424242424242424242424242424242424242424242424242424242");
    let (x, _) = affine(&gmul(&kk)).unwrap();
    let r = x % n();
    let s = kk.modpow(&(n() - BigUint::from(2u8)), &n()) * (&z + &r * &d) % n();
    let pk = pubkey(&be32(&d));
    let mut msg = be32(&z);
    assert!(verify(&pk, &msg, &r, &s));
    assert!(verify(&pk, &msg, &r, &(n() - &s)));
    assert_eq!(parse_der(&der(&r, &s)), Some((r.clone(), s.clone())));
    msg[3] ^= 1;
    assert!(!verify(&pk, &msg, &r, &s));
    assert!(affine(&padd(&gmul(&d), &gmul(&(n() - &d)))).is_none());
}

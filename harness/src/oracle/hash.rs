//! Independent SHA-1, SHA-256, RIPEMD-160 and HMAC-SHA256 from their specifications.
fn pad(msg: &[u8], be: bool) -> Vec<u8> {
    let mut m = msg.to_vec();
    let bits = (msg.len() as u64) * 8;
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&if be { bits.to_be_bytes() } else { bits.to_le_bytes() });
    m
}
pub fn sha1(msg: &[u8]) -> [u8; 20] {
    let mut h: [u32; 5] = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0];
    for c in pad(msg, true).chunks(64) {
        let mut w = [0u32; 80];
        for i in 0..16 {
            w[i] = u32::from_be_bytes([c[4 * i], c[4 * i + 1], c[4 * i + 2], c[4 * i + 3]]);
        }
        for i in 16..80 {
            w[i] = (w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1);
        }
        let (mut a, mut b, mut cc, mut d, mut e) = (h[0], h[1], h[2], h[3], h[4]);
        for i in 0..80 {
            let (f, k) = match i / 20 {
                0 => ((b & cc) | (!b & d), 0x5a827999u32),
                1 => (b ^ cc ^ d, 0x6ed9eba1),
                2 => ((b & cc) | (b & d) | (cc & d), 0x8f1bbcdc),
                _ => (b ^ cc ^ d, 0xca62c1d6),
            };
            let t = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(w[i]);
            e = d;
            d = cc;
            cc = b.rotate_left(30);
            b = a;
            a = t;
        }
        for (x, y) in h.iter_mut().zip(&[a, b, cc, d, e]) {
            *x = x.wrapping_add(*y);
        }
    }
    let mut o = [0; 20];
    for i in 0..5 {
        o[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    o
}
fn primes() -> Vec<u64> {
    let mut p = vec![];
    let mut n = 2u64;
    while p.len() < 64 {
        if p.iter().all(|q| n % q != 0) {
            p.push(n);
        }
        n += 1;
    }
    p
}
fn frac_root(p: u64, cube: bool) -> u32 {
    // floor(frac(p^(1/2 or 1/3)) * 2^32) by integer search on x = floor(root * 2^32)
    let (mut lo, mut hi) = (0u128, 1u128 << 37);
    while hi - lo > 1 {
        let mid = (lo + hi) / 2;
        let ok = if cube {
            // mid^3 <= p << 96 ; mid < 2^37 so mid^3 < 2^111
            mid * mid * mid <= (p as u128) << 96
        } else {
            mid * mid <= (p as u128) << 64
        };
        if ok {
            lo = mid
        } else {
            hi = mid
        }
    }
    lo as u32
}
pub struct Sha256Tables {
    k: [u32; 64],
    h: [u32; 8],
}
impl Sha256Tables {
    fn new() -> Self {
        let p = primes();
        let mut k = [0; 64];
        let mut h = [0; 8];
        for i in 0..64 {
            k[i] = frac_root(p[i], true);
        }
        for i in 0..8 {
            h[i] = frac_root(p[i], false);
        }
        Sha256Tables { k, h }
    }
}
thread_local! { static T: Sha256Tables = Sha256Tables::new(); }
pub fn sha256(msg: &[u8]) -> [u8; 32] {
    T.with(|t| {
        let mut h = t.h;
        for c in pad(msg, true).chunks(64) {
            let mut w = [0u32; 64];
            for i in 0..16 {
                w[i] = u32::from_be_bytes([c[4 * i], c[4 * i + 1], c[4 * i + 2], c[4 * i + 3]]);
            }
            for i in 16..64 {
                let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
                let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
                w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
            }
            let mut v = h;
            for i in 0..64 {
                let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
                let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
                let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(t.k[i]).wrapping_add(w[i]);
                let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
                let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
                let t2 = s0.wrapping_add(mj);
                v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
            }
            for (x, y) in h.iter_mut().zip(&v) {
                *x = x.wrapping_add(*y);
            }
        }
        let mut o = [0; 32];
        for i in 0..8 {
            o[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
        }
        o
    })
}
pub fn sha256d(msg: &[u8]) -> [u8; 32] {
    sha256(&sha256(msg))
}
pub fn hash160(msg: &[u8]) -> [u8; 20] {
    ripemd160(&sha256(msg))
}
pub fn ripemd160(msg: &[u8]) -> [u8; 20] {
    const R1: [usize; 80] = [
        0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8, 3, 10, 14, 4,
        9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12, 1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5, 6, 2, 4, 0, 5, 9, 7, 12, 2, 10,
        14, 1, 3, 8, 11, 6, 15, 13,
    ];
    const R2: [usize; 80] = [
        5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12, 6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2, 15, 5, 1, 3,
        7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13, 8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7, 10, 14, 12, 15, 10, 4, 1, 5, 8, 7,
        6, 2, 13, 14, 0, 3, 9, 11,
    ];
    const S1: [u32; 80] = [
        11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8, 7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12, 11, 13, 6,
        7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5, 11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12, 9, 15, 5, 11, 6, 8,
        13, 12, 5, 12, 13, 14, 11, 8, 5, 6,
    ];
    const S2: [u32; 80] = [
        8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6, 9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11, 9, 7, 15,
        11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5, 15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8, 8, 5, 12, 9, 12, 5,
        14, 6, 8, 13, 6, 5, 15, 13, 11, 11,
    ];
    const K1: [u32; 5] = [0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e];
    const K2: [u32; 5] = [0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0];
    fn f(j: usize, x: u32, y: u32, z: u32) -> u32 {
        match j / 16 {
            0 => x ^ y ^ z,
            1 => (x & y) | (!x & z),
            2 => (x | !y) ^ z,
            3 => (x & z) | (y & !z),
            _ => x ^ (y | !z),
        }
    }
    let mut h: [u32; 5] = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0];
    for c in pad(msg, false).chunks(64) {
        let mut x = [0u32; 16];
        for i in 0..16 {
            x[i] = u32::from_le_bytes([c[4 * i], c[4 * i + 1], c[4 * i + 2], c[4 * i + 3]]);
        }
        let (mut a, mut b) = (h, h);
        for j in 0..80 {
            let step = |v: [u32; 5], ff: u32, xx: u32, k: u32, s: u32| -> [u32; 5] {
                let t = v[0].wrapping_add(ff).wrapping_add(xx).wrapping_add(k).rotate_left(s).wrapping_add(v[4]);
                [v[4], t, v[1], v[2].rotate_left(10), v[3]]
            };
            a = step(a, f(j, a[1], a[2], a[3]), x[R1[j]], K1[j / 16], S1[j]);
            b = step(b, f(79 - j, b[1], b[2], b[3]), x[R2[j]], K2[j / 16], S2[j]);
        }
        let t = h[1].wrapping_add(a[2]).wrapping_add(b[3]);
        h[1] = h[2].wrapping_add(a[3]).wrapping_add(b[4]);
        h[2] = h[3].wrapping_add(a[4]).wrapping_add(b[0]);
        h[3] = h[4].wrapping_add(a[0]).wrapping_add(b[1]);
        h[4] = h[0].wrapping_add(a[1]).wrapping_add(b[2]);
        h[0] = t;
    }
    let mut o = [0; 20];
    for i in 0..5 {
        o[4 * i..4 * i + 4].copy_from_slice(&h[i].to_le_bytes());
    }
    o
}
pub fn hmac_sha256(key: &[u8], msg: &[u8]) -> [u8; 32] {
    let mut k = [0u8; 64];
    if key.len() > 64 {
        k[..32].copy_from_slice(&sha256(key));
    } else {
        k[..key.len()].copy_from_slice(key);
    }
    let mut i: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    i.extend_from_slice(msg);
    let mut o: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
    o.extend_from_slice(&sha256(&i));
    sha256(&o)
}
pub fn self_test() -> Result<(), String> {
    let hx = |b: &[u8]| super::hex(b);
    let checks = [
        (hx(&sha1(b"abc")), "a9993e364706816aba3e25717850c26c9cd0d89d"),
        (hx(&sha256(b"abc")), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"),
        (hx(&ripemd160(b"abc")), "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc"),
        (hx(&sha256(b"")), "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855"),
        (hx(&ripemd160(b"12345678901234567890123456789012345678901234567890123456789012345678901234567890")), "9b752e45573d4b39f4dbd3323cab82bf63326bfb"),
    ];
    for (a, b) in checks.iter() {
        if a != b {
            return Err(format!("oracle hash self-test failed: {} != {}", a, b));
        }
    }
    Ok(())
}

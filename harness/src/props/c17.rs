//! C17 hash functions and byte order
use super::c14::digest_of;
use super::util::*;
use crate::framework::*;
use crate::oracle::{hex, rev, unhex};
use crate::prng::Gen;
use crate::{ensure, same};
use bitcoin_cash::*;

fn conversions<H: Hashed + Clone + Default>(name: &str, raw: &[u8], h: &H) -> R {
    let h = || h.clone();
    same!("as_slice", hex(h().as_slice()), hex(raw));
    same!("to_vec_le", hex(&h().to_vec_le()), hex(&rev(raw)));
    same!("to_hex_be", h().to_hex_be(), hex(raw));
    same!("to_hex_le", h().to_hex_le(), hex(&rev(raw)));
    same!("Display", format!("{}", h()), hex(&rev(raw)));
    same!("Debug", format!("{:?}", h()), format!("{}({})", name, hex(&rev(raw))));
    same!("as_byte_array", hex(h().as_byte_array()), hex(raw));
    same!("into_byte_array", hex(&h().into_byte_array()), hex(raw));
    let e = |x: error::Error| x.to_string();
    let back = |what: &str, r: std::result::Result<H, String>| -> R {
        let r = r.map_err(|e| format!("{} fails: {}", what, e))?;
        same!(what, hex(r.as_slice()), hex(raw));
        ensure!(r == h(), "{}: hash values with equal bytes are not equal", what);
        Ok(())
    };
    back("from_slice", H::from_slice(raw).map_err(e))?;
    back("from_slice_le", H::from_slice_le(&rev(raw)).map_err(e))?;
    back("from_hex_be", H::from_hex_be(&hex(raw)).map_err(e))?;
    back("from_hex_le", H::from_hex_le(&hex(&rev(raw))).map_err(e))?;
    back("from_hex_be upper case", H::from_hex_be(&hex(raw).to_uppercase()).map_err(e))?;
    back("from_hex_le upper case", H::from_hex_le(&hex(&rev(raw)).to_uppercase()).map_err(e))?;
    back("from_byte_array", H::from_byte_array(ba(raw)).map_err(e))?;
    back("from_byte_array(into_byte_array)", H::from_byte_array(h().into_byte_array()).map_err(e))?;
    back("named", Ok(h().named("x")))?;
    let (n, o) = (h().named("x"), h());
    let (n, o) = (n.as_byte_array(), o.as_byte_array());
    same!("name given", n.name(), Some("x"));
    same!("function of a named hash", n.function(), o.function());
    same!("preimage of a named hash", n.preimage().map(|p| p.iter().map(|x| hex(x)).collect::<Vec<_>>()), o.preimage().map(|p| p.iter().map(|x| hex(x)).collect::<Vec<_>>()));
    back("to/from hex le", H::from_hex_le(&h().to_hex_le()).map_err(e))?;
    back("to/from hex be", H::from_hex_be(&h().to_hex_be()).map_err(e))?;
    back("to/from le bytes", H::from_slice_le(&h().to_vec_le()).map_err(e))?;
    back("display/from hex le", H::from_hex_le(&h().to_string()).map_err(e))?;
    same!("concat", hex(&h().concat(ba(b"tail"))), format!("{}{}", hex(raw), hex(b"tail")));
    Ok(())
}
fn codec<H: Hashed + Clone + Default + BitcoinCode>(raw: &[u8], h: &H, rest: &[u8]) -> R {
    same!("wire form", hex(&h.ser()), hex(raw));
    let mut d = raw.to_vec();
    d.extend_from_slice(rest);
    let (x, r) = H::deser_rest(ba(&d)).map_err(|e| e.to_string())?;
    ensure!(&x == h, "decoded {:?}, encoded {:?}", x, h);
    same!("rest", hex(&r), hex(rest));
    Ok(())
}
fn push<H: BitcoinDataType<Type = BitcoinByteArray> + Into<ByteArray> + Clone>(raw: &[u8], h: &H) -> R {
    same!("pushed bytes", h.to_pushop().to_byte_array().map(|b| hex(b)), Some(hex(raw)));
    same!("data", hex(&h.to_data().0), hex(raw));
    same!("data type", h.to_data_type(), DataType::ByteArray(Some(raw.len())));
    let b: ByteArray = h.clone().into();
    same!("into ByteArray", hex(&b), hex(raw));
    Ok(())
}
fn digest<H: Hashed + Clone + Default>(name: &str, f: Function, msg: &[u8], parts: usize) -> R {
    let want = digest_of(f, msg).unwrap();
    ensure!(H::function() == f, "function() is {:?}", H::function());
    same!("digest_slice", hex(&H::digest_slice(msg)), hex(&want));
    let m: ByteArray = if parts == 0 {
        ba(msg)
    } else if parts <= 1 {
        ba(msg).named("m")
    } else {
        let k = (msg.len() + parts - 1) / parts.max(1);
        ByteArray::from_parts(msg.chunks(k.max(1)).map(ba))
    };
    let h = H::digest(m);
    let b = h.as_byte_array().clone();
    same!("recorded function", format!("{:?}", b.function()), format!("{:?}", f));
    let p = b.preimage().ok_or("no message is recorded")?.to_vec();
    same!("number of recorded messages", p.len(), 1);
    same!("recorded message", hex(&p[0]), hex(msg));
    ensure!(h == H::digest(msg.to_vec()), "digest depends on how the message is held");
    conversions(name, &want, &h)
}
/// the message is itself something computed: a hash of one of the kinds, a number, a piece of a longer string
fn digest_derived<H: Hashed + Clone + Default>(name: &str, f: Function, msg: &[u8], how: usize, k: usize) -> R {
    let m: ByteArray = match how {
        0 => Sha1::digest(msg).into(),
        1 => Ripemd160::digest(msg).into(),
        2 => Sha256::digest(msg).into(),
        3 => Sha256d::digest(msg).into(),
        4 => Hash160::digest(msg).into(),
        5 => ba(msg).split(k.min(msg.len())).map_err(|e| e.to_string())?.0,
        6 => ba(msg).split(k.min(msg.len())).map_err(|e| e.to_string())?.1,
        7 => Sha256::digest(msg).as_byte_array().clone().concat(ba(msg)),
        8 => ByteArray::from_int(bitcoin_cash::Integer::new(k as i32).unwrap(), bitcoin_cash::Integer::new(4).unwrap()).map_err(|e| e.to_string())?,
        9 => Sha256::digest(Sha1::digest(msg).as_byte_array().clone()).into(),
        10 => Ripemd160::digest(Sha256::digest(msg).as_byte_array().clone()).into(),
        _ => Sha256::digest(msg).as_byte_array().clone().split(k % 33).map_err(|e| e.to_string())?.0,
    };
    let raw = m.to_vec();
    let want = digest_of(f, &raw).unwrap();
    let h = H::digest(m.clone());
    same!("digest of a computed message", hex(h.as_slice()), hex(&want));
    same!("digest_slice of a computed message", hex(&H::digest_slice(&m)), hex(&want));
    let p = h.as_byte_array().preimage().ok_or("no message is recorded")?.to_vec();
    same!("recorded messages", p.len(), 1);
    same!("recorded message", hex(&p[0]), hex(&raw));
    ensure!(p[0].function() == m.function(), "the recorded message is no longer the given one");
    same!("recorded function", format!("{:?}", h.as_byte_array().function()), format!("{:?}", f));
    conversions(name, &want, &h)
}
fn wrong<H: Hashed>(g: &mut Gen, n: usize) -> R {
    let len = loop {
        let l = g.edge_len(false) % 80;
        if l != n {
            break l;
        }
    };
    let d = g.bytes(len);
    ensure!(H::from_slice(&d).is_err(), "from_slice accepts {} bytes", len);
    ensure!(H::from_slice_le(&d).is_err(), "from_slice_le accepts {} bytes", len);
    ensure!(H::from_byte_array(ba(&d)).is_err(), "from_byte_array accepts {} bytes", len);
    ensure!(H::from_hex_be(&hex(&d)).is_err(), "from_hex_be accepts {} bytes", len);
    ensure!(H::from_hex_le(&hex(&d)).is_err(), "from_hex_le accepts {} bytes", len);
    Ok(())
}
fn nonhex<H: Hashed>(c: &mut Case, s: &str) -> R {
    let valid = s.len() % 2 == 0 && s.is_ascii() && unhex(&s.to_lowercase()).is_some();
    c.class_if(!valid, "non-hex text");
    for le in &[false, true] {
        let r = if *le { H::from_hex_le(s) } else { H::from_hex_be(s) };
        match r {
            Ok(h) => {
                ensure!(valid, "accepts {:?}", s);
                let t = if *le { h.to_hex_le() } else { h.to_hex_be() };
                same!("text read back", t, s.to_lowercase());
            }
            Err(_) => (),
        }
    }
    Ok(())
}
macro_rules! each_hash {
    ($k:expr, $m:ident) => {
        match $k % 5 {
            0 => $m!(Sha1, "Sha1", Function::Sha1, 20),
            1 => $m!(Ripemd160, "Ripemd160", Function::Ripemd160, 20),
            2 => $m!(Sha256, "Sha256", Function::Sha256, 32),
            3 => $m!(Sha256d, "Sha256d", Function::Hash256, 32),
            _ => $m!(Hash160, "Hash160", Function::Hash160, 20),
        }
    };
}
pub fn run(ctx: &mut Ctx) {
    ctx.rule("each hash type over random messages (length, content and split into parts random) against hash functions written from the standards; every conversion of the value compared with the oracle's bytes; a case is distinct by its type and message");
    let th = ctx.thorough();
    let max = if th { 520u64 } else { 300 };
    ctx.exhaustive("every message length across the block boundaries", 5 * max, |g, c, i| {
        let n = (i / 5) as usize;
        let m = g.bytes(n);
        c.input(format!("hash {} of {}", i % 5, hex(&m)));
        c.saw(20);
        macro_rules! d {
            ($H:ty, $n:expr, $f:expr, $l:expr) => {{
                c.class($n);
                digest::<$H>($n, $f, &m, 1)
            }};
        }
        each_hash!(i, d)
    });
    ctx.phase("random messages", 20_000, 600_000, |g, c, i| {
        let n = if g.chance(1, 50) { g.below(20_000) } else { g.edge_len(false) };
        let m = match g.below(6) {
            0 => vec![0; n],
            1 => vec![0xff; n],
            _ => g.bytes(n),
        };
        let parts = g.range(1, 5);
        c.input(format!("hash {} in {} parts of {}", i % 5, parts, hex(&m)));
        c.saw(20);
        macro_rules! d {
            ($H:ty, $n:expr, $f:expr, $l:expr) => {{
                c.class($n);
                digest::<$H>($n, $f, &m, parts)
            }};
        }
        each_hash!(i, d)
    });
    ctx.phase("computed messages", 20_000, 600_000, |g, c, i| {
        let n = g.edge_len(false);
        let m = g.bytes(n);
        let (how, k) = (g.below(12), g.below(200) as usize);
        c.input(format!("hash {} of computed message {} ({}) of {}", i % 5, how, k, hex(&m)));
        c.saw(24);
        macro_rules! d {
            ($H:ty, $n:expr, $f:expr, $l:expr) => {{
                c.class("computed message");
                digest_derived::<$H>($n, $f, &m, how, k)
            }};
        }
        each_hash!(i, d)
    });
    ctx.phase("hash values as data", 20_000, 600_000, |g, c, i| {
        macro_rules! d {
            ($H:ty, $n:expr, $f:expr, $l:expr) => {{
                let mut raw = [0u8; $l];
                match g.below(4) {
                    0 => {
                        let k = g.below($l);
                        raw[k] = g.u8();
                    }
                    1 => {
                        // symmetric except for one byte
                        for k in 0..$l {
                            raw[k] = k.min($l - 1 - k) as u8;
                        }
                        let k = g.below($l);
                        raw[k] ^= 1 << g.below(8);
                    }
                    _ => raw.copy_from_slice(&g.bytes($l)),
                }
                let rest = g.bytes(3);
                c.input(format!("{} {}", $n, hex(&raw)));
                c.saw(24);
                let h = <$H>::new(raw);
                conversions($n, &raw, &h)?;
                push(&raw, &h)?;
                codec(&raw, &h, &rest)
            }};
        }
        each_hash!(i, d)
    });
    ctx.phase("wrong lengths and text", 20_000, 600_000, |g, c, i| {
        macro_rules! d {
            ($H:ty, $n:expr, $f:expr, $l:expr) => {{
                if g.chance(1, 2) {
                    wrong::<$H>(g, $l)?;
                }
                let mut s: Vec<char> = hex(&g.bytes($l)).chars().collect();
                match g.below(7) {
                    0 => {
                        let k = g.below(s.len());
                        s[k] = *g.pick(&['g', 'G', ' ', 'x', '-', 'é', '\0', '٣']);
                    }
                    1 => {
                        let k = g.below(s.len() + 1);
                        s.insert(k, *g.pick(&['0', ' ', '\n', 'x']));
                    }
                    2 => {
                        s.pop();
                    }
                    3 => s.truncate(s.len() - 2),
                    4 => s.splice(0..0, "0x".chars()).for_each(drop),
                    5 => s.extend("00".chars()),
                    _ => {
                        let k = g.below(s.len());
                        s[k] = s[k].to_ascii_uppercase();
                    }
                }
                let t: String = s.into_iter().collect();
                c.input(format!("{} from {:?}", $n, t));
                c.saw(7);
                if t.len() != 2 * $l {
                    ensure!(<$H>::from_hex_be(&t).is_err() && <$H>::from_hex_le(&t).is_err(), "text of {} characters accepted", t.len());
                }
                nonhex::<$H>(c, &t)
            }};
        }
        each_hash!(i, d)
    });
}

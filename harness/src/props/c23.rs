//! C23 derived wire codecs
use super::util::*;
use crate::framework::*;
use crate::oracle::{compact, hex};
use crate::prng::Gen;
use crate::{ensure, same};
use bitcoin_cash::*;
use std::fmt::Debug;

pub trait Model: BitcoinCode + PartialEq + Debug + Clone {
    fn make(g: &mut Gen, depth: usize) -> Self;
    /// the wire form, written down by hand
    fn wire(&self, out: &mut Vec<u8>);
    /// what decoding the wire form must give
    fn stripped(&self) -> Self {
        self.clone()
    }
    fn min_size() -> usize {
        1
    }
}
macro_rules! ints {
    ($($t:ident)+) => { $(
        impl Model for $t {
            fn make(g: &mut Gen, _: usize) -> Self {
                let mut b = [0u8; std::mem::size_of::<$t>()];
                match g.below(6) {
                    0 => (),
                    1 => b = [0xff; std::mem::size_of::<$t>()],
                    2 => { let n = b.len(); b[n - 1] = 0x80 }
                    3 => b[0] = g.u8(),
                    _ => { let n = b.len(); b.copy_from_slice(&g.bytes(n)) }
                }
                <$t>::from_ne_bytes(b)
            }
            fn wire(&self, out: &mut Vec<u8>) {
                // by arithmetic, not by the byte-order helpers
                let mut v = *self as u128;
                for _ in 0..std::mem::size_of::<$t>() {
                    out.push((v & 0xff) as u8);
                    v >>= 8;
                }
            }
        }
    )+ }
}
ints! { u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 }
impl Model for bool {
    fn make(g: &mut Gen, _: usize) -> Self {
        g.chance(1, 2)
    }
    fn wire(&self, out: &mut Vec<u8>) {
        out.push(if *self { 1 } else { 0 })
    }
}
impl Model for ByteArray {
    fn make(g: &mut Gen, depth: usize) -> Self {
        let n = if depth == 0 && g.chance(1, 8) { *g.pick(&[0, 1, 2, 252, 253, 254, 65535, 65536]) } else { g.below(6) };
        let b: ByteArray = g.bytes(n).into();
        if g.chance(1, 3) {
            b.named("x")
        } else {
            b
        }
    }
    fn wire(&self, out: &mut Vec<u8>) {
        out.extend(compact(self.len() as u64));
        out.extend_from_slice(self);
    }
}
impl<T: Model> Model for Vec<T> {
    fn make(g: &mut Gen, depth: usize) -> Self {
        let n = match g.below(40) {
            0..=8 => 0,
            9..=30 => g.below(4),
            39 if depth == 0 => *g.pick(&[252usize, 253, 254, 300]),
            _ => g.below(if depth == 0 { 9 } else { 4 }),
        };
        (0..n).map(|_| T::make(g, depth + 1 + n / 20)).collect()
    }
    fn wire(&self, out: &mut Vec<u8>) {
        out.extend(compact(self.len() as u64));
        self.iter().for_each(|x| x.wire(out));
    }
    fn stripped(&self) -> Self {
        self.iter().map(|x| x.stripped()).collect()
    }
}
macro_rules! hashes {
    ($($t:ident $n:expr),+) => { $(
        impl Model for $t {
            fn make(g: &mut Gen, _: usize) -> Self {
                $t::from_slice(&g.bytes($n)).unwrap()
            }
            fn wire(&self, out: &mut Vec<u8>) {
                out.extend_from_slice(self.as_slice());
            }
        }
    )+ }
}
hashes! { Sha1 20, Ripemd160 20, Sha256 32, Sha256d 32, Hash160 20 }
impl Model for TxOutpoint {
    fn make(g: &mut Gen, _: usize) -> Self {
        super::c22::outpoint(g)
    }
    fn wire(&self, out: &mut Vec<u8>) {
        self.tx_hash.wire(out);
        self.vout.wire(out);
    }
}
impl Model for TxOutput {
    fn make(g: &mut Gen, _: usize) -> Self {
        super::c22::output(g)
    }
    fn wire(&self, out: &mut Vec<u8>) {
        self.value.wire(out);
        let s = script_bytes(&self.script);
        out.extend(compact(s.len() as u64));
        out.extend(s);
    }
}
impl Model for Script {
    fn make(g: &mut Gen, _: usize) -> Self {
        super::c22::script(g)
    }
    fn wire(&self, out: &mut Vec<u8>) {
        let s = script_bytes(self);
        out.extend(compact(s.len() as u64));
        out.extend(s);
    }
}
macro_rules! models {
    ($($(#[$m:meta])* struct $n:ident { $($f:ident : $t:ty = $skip:tt),* $(,)? })+) => { $(
        impl Model for $n {
            #[allow(unused_variables)]
            fn make(g: &mut Gen, depth: usize) -> Self {
                $n { $($f: <$t as Make>::mk(g, depth)),* }
            }
            #[allow(unused_variables)]
            fn wire(&self, out: &mut Vec<u8>) {
                $( models!(@wire self out $f $skip); )*
            }
            fn stripped(&self) -> Self {
                $n { $($f: models!(@strip self $f $skip)),* }
            }
        }
    )+ };
    (@wire $s:ident $o:ident $f:ident kept) => { $s.$f.wire($o) };
    (@wire $s:ident $o:ident $f:ident skipped) => { };
    (@strip $s:ident $f:ident kept) => { $s.$f.stripped() };
    (@strip $s:ident $f:ident skipped) => { Default::default() };
}
pub trait Make {
    fn mk(g: &mut Gen, depth: usize) -> Self;
}
impl<T: Model> Make for T {
    fn mk(g: &mut Gen, depth: usize) -> Self {
        T::make(g, depth)
    }
}
/// a type without a codec, for skipped fields
#[derive(Clone, Debug, PartialEq, Default)]
pub struct NoCodec(Option<String>);
impl Make for NoCodec {
    fn mk(g: &mut Gen, _: usize) -> Self {
        NoCodec(if g.chance(3, 4) { Some(super::c15::text(g)) } else { None })
    }
}
#[derive(BitcoinCode, Clone, Debug, PartialEq)]
struct Ints {
    a: u8,
    b: i128,
    c: i8,
    d: u64,
    e: u16,
    f: i32,
    g: i16,
    h: u128,
    i: i64,
    j: u32,
    k: bool,
}
models! { struct Ints { a: u8 = kept, b: i128 = kept, c: i8 = kept, d: u64 = kept, e: u16 = kept, f: i32 = kept, g: i16 = kept, h: u128 = kept, i: i64 = kept, j: u32 = kept, k: bool = kept } }
#[derive(BitcoinCode, Clone, Debug, PartialEq, Default)]
struct Skips {
    #[bitcoin_code(skip)]
    first: u32,
    a: u16,
    #[bitcoin_code(skip)]
    mid: NoCodec,
    #[bitcoin_code(skip)]
    mid2: Vec<u8>,
    b: Vec<u8>,
    c: u16,
    #[bitcoin_code(skip)]
    last: bool,
}
models! { struct Skips { first: u32 = skipped, a: u16 = kept, mid: NoCodec = skipped, mid2: Vec<u8> = skipped, b: Vec<u8> = kept, c: u16 = kept, last: bool = skipped } }
#[derive(BitcoinCode, Clone, Debug, PartialEq)]
struct One {
    only: u8,
}
models! { struct One { only: u8 = kept } }
#[derive(BitcoinCode, Clone, Debug, PartialEq)]
struct Nest {
    head: Ints,
    list: Vec<Skips>,
    lists: Vec<Vec<Vec<u16>>>,
    one: One,
    bytes: ByteArray,
    tail: Skips,
}
models! { struct Nest { head: Ints = kept, list: Vec<Skips> = kept, lists: Vec<Vec<Vec<u16>>> = kept, one: One = kept, bytes: ByteArray = kept, tail: Skips = kept } }
#[derive(BitcoinCode, Clone, Debug, PartialEq)]
#[bitcoin_code(crate = "bitcoin_cash")]
struct Chain {
    prev: Sha256d,
    outs: Vec<TxOutput>,
    points: Vec<TxOutpoint>,
    h160: Hash160,
    s: Script,
    many: Vec<ByteArray>,
    h1: Sha1,
    rmd: Ripemd160,
    hs: Vec<Sha256>,
}
models! { struct Chain { prev: Sha256d = kept, outs: Vec<TxOutput> = kept, points: Vec<TxOutpoint> = kept, h160: Hash160 = kept, s: Script = kept, many: Vec<ByteArray> = kept, h1: Sha1 = kept, rmd: Ripemd160 = kept, hs: Vec<Sha256> = kept } }
#[derive(BitcoinCode, Clone, Debug, PartialEq)]
struct Deep {
    l: Vec<Nest>,
    c: Chain,
    flags: Vec<bool>,
    wide: Vec<i128>,
    r#type: u32,
}
models! { struct Deep { l: Vec<Nest> = kept, c: Chain = kept, flags: Vec<bool> = kept, wide: Vec<i128> = kept, r#type: u32 = kept } }

fn check<T: Model>(g: &mut Gen, c: &mut Case, name: &str) -> R {
    let depth = g.below(3);
    let v = T::make(g, depth);
    let mut w = vec![];
    v.wire(&mut w);
    c.input(format!("{} {} {}", name, hex(&w), clip(&format!("{:?}", v), 4000)));
    c.class(name);
    same!("serialised", hex(&v.ser()), hex(&w));
    let want = v.stripped();
    let d = T::deser(ba(&w)).map_err(|e| format!("decoding its own form fails: {}", e))?;
    ensure!(d == want, "decoded {:?}, expected {:?}", d, want);
    // equality of scripts ignores push forms; the bytes do not
    same!("decoded value serialised", hex(&d.ser()), hex(&w));
    let n = *g.pick(&[1usize, 1, 2, 5, 300]);
    let rest = g.bytes(n);
    let mut x = w.clone();
    x.extend_from_slice(&rest);
    let (d, r) = T::deser_rest(ba(&x)).map_err(|e| e.to_string())?;
    ensure!(d == want, "decoded {:?} before a remainder, expected {:?}", d, want);
    same!("remainder", hex(&r), hex(&rest));
    ensure!(T::deser(ba(&x)).is_err(), "trailing bytes {} accepted", hex(&rest));
    if !w.is_empty() {
        for k in [0, w.len() - 1, g.below(w.len()), g.below(w.len())].iter() {
            ensure!(T::deser_rest(ba(&w[..*k])).is_err(), "the first {} of {} bytes are accepted", k, w.len());
        }
    }
    // serialised fields know their names: provenance of the derived form joins to its bytes
    c.saw(8);
    // concatenated items
    let k = g.below(6);
    let items: Vec<T> = (0..k).map(|_| T::make(g, 2)).collect();
    let mut all = vec![];
    items.iter().for_each(|i| i.wire(&mut all));
    same!("concatenated items", hex(&encode_bitcoin_code_all(items.iter())), hex(&all));
    let back = decode_bitcoin_code_all::<T>(ba(&all)).map_err(|e| format!("decoding {} items fails: {}", k, e))?;
    ensure!(back == items.iter().map(|i| i.stripped()).collect::<Vec<_>>(), "{} concatenated items decode to {:?}", k, back);
    let whole = encode_bitcoin_code_all(items.iter());
    let back2 = decode_bitcoin_code_all::<T>(whole).map_err(|e| e.to_string())?;
    ensure!(back2 == back, "concatenated items decode differently from named parts");
    c.class(format!("{} items concatenated", k));
    let mut last = vec![];
    if k > 0 {
        items[k - 1].wire(&mut last);
    }
    if last.len() > 1 {
        ensure!(decode_bitcoin_code_all::<T>(ba(&all[..all.len() - 1])).is_err(), "a truncated list of items is accepted");
    }
    Ok(())
}
macro_rules! types {
    ($g:ident $c:ident $i:expr; $($t:ty),+) => {{
        let mut k = 0u64;
        let n = [$(stringify!($t)),+].len() as u64;
        $( if $i % n == k { return check::<$t>($g, $c, stringify!($t)); } k += 1; )+
        let _ = k;
        Ok(())
    }};
}
pub fn run(ctx: &mut Ctx) {
    ctx.rule("structures deriving the codec (every integer width, skipped fields first, in the middle and last, nested structures, lists of lists, library types as fields) with random values; the wire form is written by hand from the values; distinct by type and wire form");
    ctx.phase("derived structures", 3_000, 400_000, |g, c, i| {
        types!(g c i; Ints, Skips, One, Nest, Chain, Deep, Vec<Skips>, Vec<Vec<Nest>>)
    });
    ctx.phase("element types", 22_000, 600_000, |g, c, i| {
        types!(g c i; u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, bool, ByteArray, Vec<u8>, Vec<u64>, Vec<ByteArray>, Vec<Vec<i16>>, Sha256d, Hash160, TxOutpoint, TxOutput, Script, Vec<bool>)
    });
    ctx.phase("decoding any byte as a boolean, and list counts", 3_000, 100_000, |g, c, i| {
        let b = (i % 256) as u8;
        c.input(format!("bool {:02x}", b));
        let (v, r) = bool::deser_rest(ba(&[b, 7])).map_err(|e| e.to_string())?;
        same!("boolean", v, b != 0);
        same!("rest", hex(&r), "07".to_string());
        // a list count larger than the data
        let n = g.edge_u64();
        let have = g.below(4);
        let mut d = compact(n);
        d.extend(vec![1u8; have * 4]);
        c.input(format!("list of {} u32 with {} present", n, have));
        let r = Vec::<u32>::deser_rest(ba(&d));
        if n <= have as u64 {
            let (v, rest) = r.map_err(|e| e.to_string())?;
            same!("list", v, vec![0x01010101u32; n as usize]);
            same!("rest", rest.len(), (have - n as usize) * 4);
        } else {
            ensure!(r.is_err(), "a list of {} items is read from {} items", n, have);
        }
        c.saw(4);
        Ok(())
    });
}

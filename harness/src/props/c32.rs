//! C32 errors tell the facts of the call that failed
use super::c15::gen_annotated;
use super::sig::*;
use super::util::*;
use crate::framework::*;
use crate::oracle::{cashaddr, ec, hex};
use crate::prng::Gen;
use crate::{ensure, same};
use bitcoin_cash::error::Error;
use bitcoin_cash::*;
use bitcoin_cash_ecc::init_ecc;

fn words(what: &str, text: &str, parts: &[String]) -> R {
    let mut rest = text;
    for p in parts {
        // a number is only there as a number of its own
        let mut found = None;
        let mut from = 0;
        while let Some(i) = rest[from..].find(p.as_str()).map(|i| i + from) {
            let digit = |c: Option<char>| c.map_or(false, |c| c.is_ascii_digit());
            let numeric = p.chars().last().map_or(false, |c| c.is_ascii_digit());
            if !numeric || !(digit(rest[..i].chars().last()) && !p.starts_with('-') || digit(rest[i + p.len()..].chars().next())) {
                found = Some(i + p.len());
                break;
            }
            from = i + 1;
        }
        match found {
            Some(i) => rest = &rest[i..],
            None => return Err(format!("{}: the text `{}` does not say {:?} in this order", what, text, parts)),
        }
    }
    Ok(())
}
fn s(x: impl ToString) -> String {
    x.to_string()
}

/// key, message and signature errors of the selected back end
fn curve(g: &mut Gen, c: &mut Case) -> R {
    let e = init_ecc();
    let key = loop {
        let k = g.arr32();
        if ec::valid_secret(&k) {
            break k;
        }
    };
    let msg = g.arr32();
    let good_sig = e.sign(&key, ba(&msg)).map_err(|e| s(e))?;
    let good_pk = e.derive_pubkey(&key).map_err(|e| s(e))?;
    let wrong_len = |g: &mut Gen| loop {
        let n = *g.pick(&[0usize, 1, 16, 20, 31, 33, 34, 64, 65, 100, 1000]);
        if n != 32 {
            break n;
        }
    };
    let size = |what: &str, r: std::result::Result<String, Error>, n: usize| -> R {
        match r {
            Err(Error::InvalidSize { expected, actual }) => {
                same!(format!("{}: sizes", what), (expected, actual), (32, n));
                words(what, &Error::InvalidSize { expected, actual }.to_string(), &[s(32), s(n)])
            }
            Err(e) => Err(format!("{} of {} bytes reported as {:?}", what, n, e)),
            Ok(v) => Err(format!("{} of {} bytes accepted: {}", what, n, v)),
        }
    };
    let kn = wrong_len(g);
    let bad_key = g.bytes(kn);
    let mn = wrong_len(g);
    let bad_msg = g.bytes(mn);
    c.input(format!("key of {} bytes {}, message of {} bytes {}", kn, hex(&bad_key[..kn.min(40)]), mn, hex(&bad_msg[..mn.min(40)])));
    size("secret key to sign with", e.sign(&bad_key, ba(&msg)).map(|x| hex(&x)), kn)?;
    size("secret key to derive from", e.derive_pubkey(&bad_key).map(|x| hex(x.as_slice())), kn)?;
    size("message to sign", e.sign(&key, ba(&bad_msg)).map(|x| hex(&x)), mn)?;
    size("message to verify", e.verify(good_pk.as_slice(), &bad_msg, &good_sig).map(s), mn)?;
    // both wrong: either may be named
    match e.sign(&bad_key, ba(&bad_msg)) {
        Err(Error::InvalidSize { expected: 32, actual }) if actual == kn || actual == mn => (),
        r => return Err(format!("key of {} and message of {} bytes: {:?}", kn, mn, r.map(|x| hex(&x)))),
    }
    let mut sig: Vec<u8> = match g.below(4) {
        0 => vec![],
        1 => good_sig[..g.below(good_sig.len())].to_vec(),
        2 => {
            let n = g.below(80);
            g.bytes(n)
        }
        _ => good_sig.to_vec(),
    };
    if let Some(b) = sig.first_mut() {
        if *b == 0x30 && sig.len() == good_sig.len() {
            sig[0] = *g.pick(&[0u8, 0x02, 0x31, 0x20, 0xb0]);
        }
    }
    let text = "signature";
    if ec::parse_der(&sig).is_none() {
        match e.verify(good_pk.as_slice(), &msg, &sig) {
            Err(x @ Error::InvalidSignatureFormat) => ensure!(x.to_string().to_lowercase().contains(text), "text: {}", x),
            r => return Err(format!("malformed signature {} with a good key: {:?}", hex(&sig), r)),
        }
        c.class("malformed signature");
    }
    if sig.first() != Some(&0x30) {
        match e.normalize_sig(&sig) {
            Err(Error::InvalidSignatureFormat) => (),
            r => return Err(format!("normalising {}: {:?}", hex(&sig), r.map(|x| hex(&x)))),
        }
    }
    let mut pk = good_pk.as_slice().to_vec();
    match g.below(3) {
        0 => pk[0] = *g.pick(&[0u8, 1, 5, 8, 0x10, 0xff]),
        1 => {
            let n = g.below(33);
            pk.truncate(n)
        }
        _ => pk.push(g.u8()),
    }
    match e.verify(&pk, &msg, &good_sig) {
        Err(x @ Error::InvalidPubkey) => ensure!(x.to_string().to_lowercase().contains("pubkey") || x.to_string().to_lowercase().contains("public key"), "text: {}", x),
        r => return Err(format!("malformed public key {}: {:?}", hex(&pk), r)),
    }
    c.saw(12);
    Ok(())
}

/// what was wrong with an integer operation and its operands
fn integer(g: &mut Gen, c: &mut Case) -> R {
    let val = |g: &mut Gen| loop {
        let v = match g.below(4) {
            0 => g.edge_i32(),
            1 => *g.pick(&[i32::MAX, -i32::MAX, i32::MAX - 1, 1 - i32::MAX]),
            2 => g.below(5) as i32 - 2,
            _ => g.u32() as i32,
        };
        if v != i32::MIN {
            break v;
        }
    };
    let (a, b) = (val(g), val(g));
    let (x, y) = (Integer::new(a).unwrap(), Integer::new(b).unwrap());
    c.input(format!("{} {}", a, b));
    let (la, lb) = (a as i64, b as i64);
    let fits = |v: i64| v >= i32::MIN as i64 && v <= i32::MAX as i64;
    let range = |v: i64| if v == i32::MIN as i64 { Some(IntegerError::InvalidScriptInteger(v as i32)) } else { None };
    let table: Vec<(&str, IntegerResult, Option<IntegerError>)> = vec![
        ("+", x + y, if fits(la + lb) { range(la + lb) } else { Some(IntegerError::AddOverflow(a, b)) }),
        ("-", x - y, if fits(la - lb) { range(la - lb) } else { Some(IntegerError::SubOverflow(a, b)) }),
        ("*", x * y, if fits(la * lb) { range(la * lb) } else { Some(IntegerError::MulOverflow(a, b)) }),
        ("/", x / y, if b == 0 { Some(IntegerError::Division(a, b)) } else { None }),
        ("%", x % y, if b == 0 { Some(IntegerError::Modulo(a, b)) } else { None }),
    ];
    for (sym, got, want) in table {
        same!(format!("error of {} {} {}", a, sym, b), got.integer().err(), want);
        if let Some(e) = want {
            if let IntegerError::InvalidScriptInteger(v) = e {
                words("out of range", &e.to_string(), &[s(v)])?;
            } else {
                words(sym, &e.to_string(), &[s(a), format!(" {} ", sym), s(b)])?;
            }
            // later steps of the same computation keep the first error
            let later = match g.below(4) {
                0 => got + 1,
                1 => (got - y) * x,
                2 => -(got / 0),
                _ => (got << 40) >> 50,
            };
            same!("error at the end of a longer computation", later.integer().err(), Some(e));
            // and the other operand's error comes through as well
            let outer = x & got;
            same!("error of the right operand", outer.integer().err(), Some(e));
            let wrapped: Error = e.into();
            words("wrapped", &wrapped.to_string(), &[e.to_string()])?;
            ensure!(matches!(wrapped, Error::IntegerError(f) if f == e), "conversion to the library's error changes it: {:?}", wrapped);
            c.class(format!("operator {}", sym));
            c.saw(4);
        }
    }
    let sh = *g.pick(&[0u32, 1, 5, 31, 32, 33, 64, 1000, u32::MAX]);
    for (sym, r, e) in [("<<", x << sh, IntegerError::ShlOverflow(a, sh)), (">>", x >> sh, IntegerError::ShrOverflow(a, sh))] {
        if sh >= 32 {
            same!(format!("error of {} {} {}", a, sym, sh), r.integer().err(), Some(e));
            words(sym, &e.to_string(), &[s(a), format!(" {} ", sym), s(sh)])?;
            c.class(format!("operator {}", sym));
        }
    }
    // values that are no script integers
    let wide = match g.below(4) {
        0 => g.edge_u64() as i64 as i128,
        1 => g.edge_u64() as i128,
        2 => ((g.u64() as i128) << 63) | g.u64() as i128,
        _ => -((g.u64() as i128) << g.below(60)),
    };
    let want = if wide < i32::MIN as i128 || wide > i32::MAX as i128 {
        Some(IntegerError::CastOverflow(wide))
    } else if wide == i32::MIN as i128 {
        Some(IntegerError::InvalidScriptInteger(i32::MIN))
    } else {
        None
    };
    same!(format!("Integer::new({})", wide), Integer::new(wide).err(), want);
    if let Ok(w) = std::convert::TryInto::<i64>::try_into(wide) {
        same!(format!("Integer::new({}i64)", w), Integer::new(w).err(), want);
    }
    if let Ok(w) = std::convert::TryInto::<u64>::try_into(wide) {
        same!(format!("Integer::new({}u64)", w), Integer::new(w).err(), want);
    }
    if let Some(e) = want {
        words("cast", &e.to_string(), &[s(wide)])?;
    }
    let uwant = match want {
        None if wide < 0 => Some(IntegerError::InvalidScriptInteger(wide as i32)),
        x => x,
    };
    same!(format!("UInteger::new({})", wide), UInteger::new(wide).err(), uwant);
    let huge = u128::MAX - g.u64() as u128;
    same!("Integer::new of more than an i128", Integer::new(huge).err(), Some(IntegerError::CastOverflowI128));
    c.saw(12);
    Ok(())
}

fn slice_err<T>(what: &str, r: std::result::Result<T, Error>, want: usize, n: usize) -> R {
    match r {
        Err(Error::ByteArrayError(ByteArrayError::InvalidSlice { expected, actual })) => {
            same!(format!("{}: lengths", what), (expected, actual), (want, n));
            words(what, &Error::from(ByteArrayError::InvalidSlice { expected, actual }).to_string(), &[s(want), s(n)])
        }
        Err(e) => Err(format!("{} of {} bytes: {:?}", what, n, e)),
        Ok(_) => Err(format!("{} of {} bytes accepted", what, n)),
    }
}
fn hash_errors<H: Hashed + serde::de::DeserializeOwned>(what: &str, want: usize, g: &mut Gen) -> R {
    let n = loop {
        let n = if g.chance(1, 25) { *g.pick(&[255usize, 256, 276, 288, 300, 532, 544, 65_556, 65_568]) } else { g.below(70) };
        if n != want {
            break n;
        }
    };
    let d = g.bytes(n);
    slice_err(what, H::from_slice(&d), want, n)?;
    slice_err(what, H::from_slice_le(&d), want, n)?;
    slice_err(what, H::from_byte_array(ba(&d)), want, n)?;
    slice_err(what, H::from_hex_be(&hex(&d)), want, n)?;
    slice_err(what, H::from_hex_le(&hex(&d)), want, n)?;
    match serde_json::from_str::<H>(&format!("\"{}\"", hex(&d))) {
        Err(e) => words(what, &e.to_string(), &[s(want), s(n)])?,
        Ok(_) => return Err(format!("{} of {} bytes accepted from JSON", what, n)),
    }
    // text that is no hex: the letter and its place
    let mut t = hex(&g.bytes(want)).into_bytes();
    let at = g.below(t.len());
    t[at] = *g.pick(b"gzxG :-_\"");
    let t = String::from_utf8(t).unwrap();
    for r in [H::from_hex_be(&t), H::from_hex_le(&t)] {
        match r {
            Err(Error::FromHex(e)) => {
                let ch = t.as_bytes()[at] as char;
                same!("letter", e, hex_crate(ch, at));
                words(what, &Error::FromHex(e).to_string(), &[s(ch), s(at)])?;
            }
            Err(e) => return Err(format!("{} from `{}`: {:?}", what, t, e)),
            Ok(_) => return Err(format!("{} accepted from `{}`", what, t)),
        }
    }
    match H::from_hex_be(&t[..t.len() - 1 - t.len() % 2]) {
        Err(Error::FromHex(_)) => Ok(()),
        r => Err(format!("odd number of digits: {:?}", r.map(|h| h.to_hex_be()))),
    }
}
fn hex_crate(c: char, index: usize) -> hex::FromHexError {
    hex::FromHexError::InvalidHexCharacter { c, index }
}

/// mostly small, sometimes more than 8 or 16 bits hold
fn size(g: &mut Gen, small: usize) -> usize {
    if g.chance(1, 150) {
        *g.pick(&[255usize, 256, 257, 300, 511, 512, 1000, 65_535, 65_536, 65_537, 70_000])
    } else {
        g.below(small)
    }
}
fn bytes(g: &mut Gen, c: &mut Case) -> R {
    let n = size(g, 40);
    let d = g.bytes(n);
    let a = match g.below(3) {
        0 => ba(&d),
        1 => ByteArray::new("x", d.clone()),
        _ => ByteArray::from_parts(d.chunks(3).map(ba)),
    };
    let at = n + 1 + g.below(*g.clone().pick(&[1usize, 3, 1000, 1 << 40]));
    c.input(format!("{} bytes, split at {}", n, at));
    match a.clone().split(at) {
        Err(e @ ByteArrayError::InvalidSplit { .. }) => {
            if let ByteArrayError::InvalidSplit { split_idx, len } = e {
                same!("split", (split_idx, len), (at, n));
            }
            words("split", &e.to_string(), &[s(at), s(n)])?;
            words("split", &Error::from(e).to_string(), &[s(at), s(n)])?;
        }
        r => return Err(format!("split of {} bytes at {}: {:?}", n, at, r.is_ok())),
    }
    let (v, k) = (g.edge_i32().max(-i32::MAX), *g.pick(&[-5i32, -1, 0, 1, 2, 3, 4, 5]));
    let bits = if k <= 0 { 0 } else { 8 * k.min(4) - 1 };
    let fits = k > 0 && (v.abs() as i64) < 1i64 << bits;
    match ByteArray::from_int(Integer::new(v).unwrap(), Integer::new(k).unwrap()) {
        Ok(_) => ensure!(fits, "{} accepted in {} bytes", v, k),
        Err(e) => {
            ensure!(!fits, "{} refused in {} bytes: {}", v, k, e);
            match e {
                ByteArrayError::FromIntegerError { int, n_bytes } => same!("integer and size", (int.value(), n_bytes.value()), (v, k)),
                ref e => return Err(format!("{:?}", e)),
            }
            words("integer", &e.to_string(), &[s(v), s(k)])?;
            c.class("integer too big");
        }
    }
    match g.below(5) {
        0 => hash_errors::<Sha1>("Sha1", 20, g)?,
        1 => hash_errors::<Ripemd160>("Ripemd160", 20, g)?,
        2 => hash_errors::<Sha256>("Sha256", 32, g)?,
        3 => hash_errors::<Sha256d>("Sha256d", 32, g)?,
        _ => hash_errors::<Hash160>("Hash160", 20, g)?,
    }
    c.saw(16);
    Ok(())
}

/// what is left over after a complete item, and what is missing of an incomplete one
fn decoding(g: &mut Gen, c: &mut Case) -> R {
    let t = gen_otx(g, false, false);
    let full = t.ser();
    let extra = {
        let n = 1 + size(g, 20);
        g.bytes(n)
    };
    let mut d = full.clone();
    d.extend_from_slice(&extra);
    c.input(hex(&d));
    match UnhashedTx::deser(ba(&d)) {
        Err(Error::ByteArrayError(ByteArrayError::LeftoverBytes { bytes })) => {
            same!("bytes left over", hex(&bytes), hex(&extra));
            words("leftover", &Error::from(ByteArrayError::LeftoverBytes { bytes }).to_string(), &[hex(&extra)])?;
        }
        r => return Err(format!("{} bytes too many: {:?}", extra.len(), r.map(|_| ()))),
    }
    // a byte string that claims more than there is
    let n = 1 + size(g, 60);
    let have = g.below(n);
    let mut d = crate::oracle::compact(n as u64);
    d.extend_from_slice(&g.bytes(have));
    match ByteArray::deser(ba(&d)) {
        Err(Error::ByteArrayError(ByteArrayError::InvalidSplit { split_idx, len })) => same!("length claimed and there", (split_idx, len), (n, have)),
        r => return Err(format!("{} of {} bytes: {:?}", have, n, r.map(|x| hex(&x)))),
    }
    // a script that ends in a push
    let n = 1 + size(g, 75);
    let have = g.below(n);
    let mut ops = crate::oracle::script::push_prefixed(&vec![0; n]);
    ops.truncate(ops.len() - n);
    ops.extend_from_slice(&g.bytes(have));
    match Script::deser_ops(ba(&ops)) {
        Err(Error::Io(e)) => same!("incomplete push", e.kind(), std::io::ErrorKind::UnexpectedEof),
        Err(Error::ByteArrayError(ByteArrayError::InvalidSplit { split_idx, len })) => same!("length claimed and there", (split_idx, len), (n, have)),
        r => return Err(format!("push of {} with {} bytes: {:?}", n, have, r.map(|x| script_bytes(&x)))),
    }
    // any other truncation: a fact about sizes is one of this input
    let cut = g.below(full.len());
    match UnhashedTx::deser(ba(&full[..cut])) {
        Ok(_) => return Err("a truncated transaction is accepted".into()),
        Err(Error::ByteArrayError(ByteArrayError::InvalidSplit { split_idx, len })) => {
            ensure!(split_idx > len && len <= cut, "split at {} of {} in an input of {} bytes", split_idx, len, cut);
            c.class("truncated: split");
        }
        Err(Error::ByteArrayError(ByteArrayError::InvalidSlice { expected, actual })) => {
            ensure!(expected != actual && actual <= cut, "slice of {} for {} in an input of {} bytes", actual, expected, cut)
        }
        Err(Error::Io(e)) => {
            same!("kind", e.kind(), std::io::ErrorKind::UnexpectedEof);
            c.class("truncated: end of input");
        }
        Err(e) => return Err(format!("a truncated transaction is reported as {:?}", e)),
    }
    c.saw(5);
    Ok(())
}

fn address(g: &mut Gen, c: &mut Case) -> R {
    let prefix = *g.pick(&["bitcoincash", "simpleledger", "bchtest", "x"]);
    let explicit = prefix != "bitcoincash" || g.chance(1, 2);
    let show = |body: &str| if explicit { format!("{}:{}", prefix, body) } else { body.to_string() };
    let strip = |x: String| x[x.find(':').map_or(0, |i| i + 1)..].to_string();
    let h = g.arr20();
    let good = strip(cashaddr::encode(prefix, g.chance(1, 2), &h));
    let kind = g.below(5);
    let (text, want, parts): (String, String, Vec<String>) = match kind {
        0 => {
            // one or more letters outside the alphabet: the first is named
            let mut b = good.clone().into_bytes();
            let longer = size(g, 1);
            while b.len() < longer {
                b.push(*g.pick(&cashaddr::alphabet()[..]));
            }
            let mut first = usize::MAX;
            for _ in 0..1 + g.below(3) {
                let at = g.below(b.len());
                b[at] = *g.pick(b"1bio!.-_ /~\x7f");
                first = first.min(at);
            }
            (show(&String::from_utf8(b.clone()).unwrap()), format!("InvalidBase32Letter({}, {})", first, b[first]), vec![s(b[first]), s(first)])
        }
        1 => {
            let v = loop {
                let v = g.u8();
                if v != 0 && v != 8 {
                    break v;
                }
            };
            (show(&cashaddr::encode_body(prefix, v, &h)), format!("InvalidAddressType({})", v), vec![s(v)])
        }
        2 => {
            // up to four letters changed within the alphabet
            let mut b = good.clone().into_bytes();
            for _ in 0..1 + g.below(4) {
                let at = g.below(b.len());
                b[at] = *g.pick(&cashaddr::alphabet()[..]);
            }
            let b = String::from_utf8(b).unwrap();
            if cashaddr::checksum_ok(prefix, &b) {
                return Ok(());
            }
            (show(&b), s("InvalidChecksum"), vec![s("hecksum")])
        }
        3 => {
            let n = loop {
                let n = if g.chance(1, 40) { *g.pick(&[255usize, 256, 276, 277, 300, 65_556]) } else { g.below(40) };
                if n != 20 {
                    break n;
                }
            };
            let d = g.bytes(n);
            (show(&cashaddr::encode_body(prefix, *g.pick(&[0u8, 8]), &d)), s("InvalidPayload"), vec![s("ayload")])
        }
        _ => {
            let cut = g.below(good.len());
            let b = good[..cut].to_string();
            if cashaddr::checksum_ok(prefix, &b) {
                return Ok(());
            }
            (show(&b), s("InvalidChecksum"), vec![s("hecksum")])
        }
    };
    c.input(text.clone());
    c.class(["letter", "version", "checksum", "payload length", "truncated"][kind]);
    match Address::from_cash_addr(text.clone()) {
        Err(Error::InvalidCashAddr(e)) => {
            same!(format!("why `{}` is no address", text), format!("{:?}", e), want);
            words("address", &e.to_string(), &parts)?;
            ensure!(Error::InvalidCashAddr(e).to_string().to_lowercase().contains("cashaddr"), "text");
        }
        Err(e) => return Err(format!("`{}` reported as {:?}", text, e)),
        Ok(a) => return Err(format!("`{}` accepted as {:?}", text, a.addr_type())),
    }
    let a = Address::from_hash(Prefix::BitcoinCash, AddressType::P2SH, Hash160::new(h));
    match a.p2pkh_script() {
        Err(Error::InvalidAddressType) => (),
        r => return Err(format!("P2PKH script of a P2SH address: {:?}", r.is_ok())),
    }
    c.saw(4);
    Ok(())
}

/// signing twice, too little money, a leftover output where none may be
fn building(g: &mut Gen, c: &mut Case) -> R {
    let n = if g.chance(1, 150) { *g.pick(&[256usize, 257, 300]) } else { 1 + g.below(5) };
    let mut sc = gen_scene(g, n, false);
    for v in &mut sc.values {
        *v &= 0xffff;
    }
    let log = new_log();
    let total: u64 = sc.values.iter().sum();
    let short = 1 + (g.u64() >> (12 + g.below(51)));
    c.input(format!("{} missing {}", sc.show(), short));
    let mut b = sc.builder(1000, &log);
    let parts = 1 + g.below(3) as u64;
    for k in 0..parts {
        let v = (total + short) / parts + if k == 0 { (total + short) % parts } else { 0 };
        b.add_output(TxOutput { value: v, script: Script::new(vec![]) });
    }
    match b.build() {
        Err(Error::InsufficientInputAmount { amount }) => {
            same!("missing amount", amount, short);
            words("missing", &Error::InsufficientInputAmount { amount }.to_string(), &[s(short)])?;
        }
        Err(e) => return Err(format!("inputs {} short reported as {:?}", short, e)),
        Ok(_) => return Err(format!("inputs {} short accepted", short)),
    }
    let mut b = sc.builder(1000, &log);
    b.add_leftover_output(P2PKHScript::dummy());
    match b.build_without_estimation() {
        Err(e) => ensure!(e.to_string().to_lowercase().contains("leftover"), "a leftover output without estimation is reported as {}", e),
        Ok(_) => return Err("a leftover output without estimation is accepted".into()),
    }
    let mut u = sc.builder(0, &log).build().map_err(|e| s(e))?;
    drain(&log);
    let k = g.below(n);
    let sigs = sc.plans[k].gen_sigs(g, false);
    sign(&mut u, k, &sc.plans[k], &log, &sigs, g.below(3)).map_err(|e| s(e))?;
    let before = drain(&log).len();
    let others = sc.plans[k].gen_sigs(g, false);
    for how in 0..3 {
        match sign(&mut u, k, &sc.plans[k], &log, &others, how) {
            Err(Error::InputAlreadySigned { input_idx }) => {
                same!("input", input_idx, k);
                words("signed twice", &Error::InputAlreadySigned { input_idx }.to_string(), &[s(k)])?;
            }
            r => return Err(format!("input {} signed twice: {:?}", k, r.map_err(|e| s(e)))),
        }
    }
    for i in 0..n {
        if i != k {
            let sg = sc.plans[i].gen_sigs(g, false);
            sign(&mut u, i, &sc.plans[i], &log, &sg, g.below(3)).map_err(|e| s(e))?;
        }
    }
    let tx = u.complete_tx();
    same!("script of the input signed twice", hex(&script_bytes(&tx.inputs[k].script)), hex(&sc.plans[k].unlock_bytes(&sigs, &sc.plans[k].preimages(&sc.otx(&[]), k, sc.values[k]), &[])));
    c.saw(8 + before);
    Ok(())
}
struct P2PKHScript;
impl P2PKHScript {
    fn dummy() -> Script {
        Script::new(vec![TaggedOp::from_op(Op::Code(Opcode::OP_RETURN))])
    }
}

/// one index of an exported document changed: the error names it
fn json(g: &mut Gen, c: &mut Case) -> R {
    let tx = gen_annotated(g, 3, 2);
    let doc = tx_to_json(&tx).map_err(|e| s(e))?;
    let mut v: serde_json::Value = serde_json::from_str(&doc).map_err(|e| s(e))?;
    let keys = ["data_b64", "byte_arrays", "strings"];
    let count = |v: &serde_json::Value, k: &str| v["data"][k].as_array().map_or(0, |a| a.len());
    ensure!(keys.iter().all(|k| v["data"].get(*k).is_some()), "the document has other tables than {:?}", keys);
    let far = 1 + { let m = *g.pick(&[1usize, 10, 1_000_000]); g.below(m) };
    let kind = g.below(5);
    let ops: Vec<(&str, usize, usize)> = ["inputs", "outputs"]
        .iter()
        .flat_map(|w| {
            let w = *w;
            let x = v[w].as_array().cloned().unwrap_or_default();
            (0..x.len()).flat_map(move |i| (0..x[i]["script"].as_array().map_or(0, |o| o.len())).map(move |j| (w, i, j)).collect::<Vec<_>>()).collect::<Vec<_>>()
        })
        .collect();
    let mut bad = 0usize;
    let hit = match kind {
        0 => {
            // the data of a byte array some operation pushes
            let used: Vec<u64> = ops.iter().filter_map(|(w, i, j)| v[*w][*i]["script"][*j]["op"]["PushByteArray"]["array_idx"].as_u64()).collect();
            if used.is_empty() {
                false
            } else {
                let a = *g.pick(&used) as usize;
                bad = count(&v, "data_b64") - 1 + far;
                let e = &mut v["data"]["byte_arrays"][a];
                if e.is_array() { e[0] = bad.into() } else { *e = bad.into() }
                true
            }
        }
        1 => match ops.iter().find(|(w, i, j)| v[*w][*i]["script"][*j]["op"].get("PushByteArray").is_some()) {
            None => false,
            Some((w, i, j)) => {
                bad = count(&v, "byte_arrays") - 1 + far;
                v[*w][*i]["script"][*j]["op"]["PushByteArray"]["array_idx"] = bad.into();
                true
            }
        },
        2 | 3 => {
            if ops.is_empty() {
                false
            } else {
                let (w, i, j) = *g.pick(&ops);
                bad = (count(&v, "strings") + far).saturating_sub(1);
                if kind == 2 {
                    v[w][i]["script"][j]["src_file"] = bad.into();
                } else {
                    v[w][i]["script"][j]["pushed_names"] = serde_json::json!([null, bad]);
                }
                true
            }
        }
        _ => {
            if v["inputs"].as_array().map_or(true, |a| a.is_empty()) {
                false
            } else {
                let n = v["inputs"].as_array().unwrap().len();
                bad = count(&v, "byte_arrays") - 1 + far;
                v["inputs"][g.below(n)]["prev_out_hash"] = bad.into();
                true
            }
        }
    };
    c.input(format!("kind {} {} {}", kind, bad, doc));
    if !hit {
        c.trivial();
        return Ok(());
    }
    let text = v.to_string();
    c.class(["data index", "byte array index", "source file index", "name index", "hash index"][kind]);
    match json_to_tx(&text) {
        Err(Error::Json(e)) => {
            match (&e, kind) {
                (JsonError::InvalidDataIdx { idx }, 0) | (JsonError::InvalidByteArrayIdx { idx }, 1) | (JsonError::InvalidByteArrayIdx { idx }, 4) | (JsonError::InvalidStringIdx { idx }, 2) | (JsonError::InvalidStringIdx { idx }, 3) => {
                    same!("index", *idx, bad)
                }
                _ => return Err(format!("the bad index {} is reported as {:?}", bad, e)),
            }
            words("index", &e.to_string(), &[s(bad)])?;
            let which = ["data", "byte array", "string", "string", "byte array"][kind];
            ensure!(e.to_string().to_lowercase().replace('_', " ").contains(which), "the text `{}` does not say what kind of index it is ({})", e, which);
            words("index", &Error::Json(e).to_string(), &[s(bad)])?;
        }
        Err(e) => return Err(format!("the bad index {} is reported as {:?}", bad, e)),
        Ok(_) => return Err(format!("the bad index {} is accepted", bad)),
    }
    c.saw(3);
    Ok(())
}
/// text that is no JSON, and JSON that is no transaction
fn documents(g: &mut Gen, c: &mut Case) -> R {
    let tx = gen_annotated(g, 2, 1);
    let doc = tx_to_json(&tx).map_err(|e| s(e))?;
    let cut = g.below(doc.len());
    let mut cut = cut;
    while !doc.is_char_boundary(cut) {
        cut -= 1;
    }
    c.input(format!("cut {} {}", cut, doc));
    match json_to_tx(&doc[..cut]) {
        Err(Error::SerdeJson(e)) => {
            ensure!(e.is_eof(), "a truncated document is reported as {}", e);
            words("json", &Error::SerdeJson(e).to_string(), &["JSON".into()])?;
        }
        r => return Err(format!("document cut at {}: {:?}", cut, r.map(|_| ()).map_err(|e| s(e)))),
    }
    let mut v: serde_json::Value = serde_json::from_str(&doc).map_err(|e| s(e))?;
    let keys: Vec<String> = v.as_object().unwrap().keys().cloned().collect();
    let k = g.pick(&keys).clone();
    v.as_object_mut().unwrap().remove(&k);
    match json_to_tx(&v.to_string()) {
        Err(Error::SerdeJson(e)) => words("json", &e.to_string(), &[format!("`{}`", k)])?,
        r => return Err(format!("document without {}: {:?}", k, r.map(|_| ()).map_err(|e| s(e)))),
    }
    c.saw(2);
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    ctx.rule("calls with exactly one thing wrong (or two, when either may be named): sizes, operands, indices, letters, amounts; the kind and numbers of the error and its text are compared with what was done");
    ctx.phase("curve", 1_500, 40_000, |g, c, _| curve(g, c));
    ctx.phase("integers", 60_000, 3_000_000, |g, c, _| integer(g, c));
    ctx.phase("byte strings", 40_000, 2_000_000, |g, c, _| bytes(g, c));
    ctx.phase("decoding", 20_000, 800_000, |g, c, _| decoding(g, c));
    ctx.phase("addresses", 30_000, 1_500_000, |g, c, _| address(g, c));
    ctx.phase("building and signing", 5_000, 200_000, |g, c, _| building(g, c));
    ctx.phase("indices in JSON", 10_000, 400_000, |g, c, _| json(g, c));
    ctx.phase("documents", 4_000, 100_000, |g, c, _| documents(g, c));
}

//! A small Bitcoin Cash script interpreter (consensus stack semantics; signature checks are a callback).
use super::hash::*;
use super::{scriptnum, scriptnum_value};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum IOp {
    Code(u8),
    Push(Vec<u8>),
}
pub fn from_tokens(t: &[super::script::Tok]) -> Vec<IOp> {
    t.iter()
        .map(|t| match t {
            super::script::Tok::Op(o) => IOp::Code(*o),
            super::script::Tok::Push(_, d) => IOp::Push(d.clone()),
        })
        .collect()
}
/// (signature, public key, index of the first operation after the last executed code separator)
pub type SigCheck<'a> = dyn Fn(&[u8], &[u8], usize) -> bool + 'a;

pub struct Vm<'a> {
    pub stack: Vec<Vec<u8>>,
    pub alt: Vec<Vec<u8>>,
    exec: Vec<bool>,
    pub codesep: usize,
    pub sig: &'a SigCheck<'a>,
    /// called before each executed operation
    pub executed: usize,
}
pub fn truthy(b: &[u8]) -> bool {
    for (i, x) in b.iter().enumerate() {
        if *x != 0 {
            return !(i == b.len() - 1 && *x == 0x80);
        }
    }
    false
}
fn boolv(b: bool) -> Vec<u8> {
    if b {
        vec![1]
    } else {
        vec![]
    }
}
impl<'a> Vm<'a> {
    pub fn new(sig: &'a SigCheck<'a>) -> Vm<'a> {
        Vm { stack: vec![], alt: vec![], exec: vec![], codesep: 0, sig, executed: 0 }
    }
    fn pop(&mut self) -> Result<Vec<u8>, String> {
        self.stack.pop().ok_or_else(|| "stack underflow".to_string())
    }
    fn num(&mut self) -> Result<i64, String> {
        let b = self.pop()?;
        if b.len() > 4 {
            return Err("number too long".into());
        }
        let v = scriptnum_value(&b).unwrap() as i64;
        if scriptnum(v) != b {
            return Err("non-minimal number".into());
        }
        Ok(v)
    }
    fn at(&self, depth: usize) -> Result<Vec<u8>, String> {
        if depth >= self.stack.len() {
            return Err("stack underflow".into());
        }
        Ok(self.stack[self.stack.len() - 1 - depth].clone())
    }
    fn need(&self, n: usize) -> Result<(), String> {
        if self.stack.len() < n {
            Err("stack underflow".into())
        } else {
            Ok(())
        }
    }
    fn pushn(&mut self, v: i64) {
        self.stack.push(scriptnum(v));
    }
    pub fn is_executing(&self) -> bool {
        self.exec.iter().all(|x| *x)
    }
    pub fn open_conditionals(&self) -> usize {
        self.exec.len()
    }
    /// executes operation number `idx`
    pub fn step(&mut self, idx: usize, op: &IOp) -> Result<(), String> {
        let run = self.is_executing();
        let code = match op {
            IOp::Push(d) => {
                if run {
                    self.executed += 1;
                    self.stack.push(d.clone());
                }
                return Ok(());
            }
            IOp::Code(c) => *c,
        };
        match code {
            0x63 | 0x64 => {
                let v = if run { truthy(&self.pop()?) == (code == 0x63) } else { false };
                self.exec.push(v);
                return Ok(());
            }
            0x67 => {
                let l = self.exec.last_mut().ok_or("OP_ELSE without OP_IF")?;
                *l = !*l;
                return Ok(());
            }
            0x68 => {
                self.exec.pop().ok_or("OP_ENDIF without OP_IF")?;
                return Ok(());
            }
            _ => {}
        }
        if !run {
            return Ok(());
        }
        self.executed += 1;
        match code {
            0x00 => self.stack.push(vec![]),
            0x4f => self.pushn(-1),
            0x51..=0x60 => self.pushn((code - 0x50) as i64),
            0x61 | 0xb0 | 0xb3..=0xb9 => {}
            0x69 => {
                if !truthy(&self.pop()?) {
                    return Err("OP_VERIFY failed".into());
                }
            }
            0x6a => return Err("OP_RETURN".into()),
            0x6b => {
                let v = self.pop()?;
                self.alt.push(v);
            }
            0x6c => {
                let v = self.alt.pop().ok_or("alt stack underflow")?;
                self.stack.push(v);
            }
            0x6d => {
                self.pop()?;
                self.pop()?;
            }
            0x6e => {
                self.need(2)?;
                for _ in 0..2 {
                    let v = self.at(1)?;
                    self.stack.push(v);
                }
            }
            0x6f => {
                self.need(3)?;
                for _ in 0..3 {
                    let v = self.at(2)?;
                    self.stack.push(v);
                }
            }
            0x70 => {
                self.need(4)?;
                for _ in 0..2 {
                    let v = self.at(3)?;
                    self.stack.push(v);
                }
            }
            0x71 => {
                self.need(6)?;
                let n = self.stack.len();
                self.stack[n - 6..].rotate_left(2);
            }
            0x72 => {
                self.need(4)?;
                let n = self.stack.len();
                self.stack[n - 4..].rotate_left(2);
            }
            0x73 => {
                let v = self.at(0)?;
                if truthy(&v) {
                    self.stack.push(v);
                }
            }
            0x74 => {
                let n = self.stack.len();
                self.pushn(n as i64);
            }
            0x75 => {
                self.pop()?;
            }
            0x76 => {
                let v = self.at(0)?;
                self.stack.push(v);
            }
            0x77 => {
                self.need(2)?;
                let n = self.stack.len();
                self.stack.remove(n - 2);
            }
            0x78 => {
                let v = self.at(1)?;
                self.stack.push(v);
            }
            0x79 | 0x7a => {
                let d = self.num()?;
                if d < 0 || d as usize >= self.stack.len() {
                    return Err("OP_PICK/OP_ROLL depth out of range".into());
                }
                let v = self.at(d as usize)?;
                if code == 0x7a {
                    let n = self.stack.len();
                    self.stack.remove(n - 1 - d as usize);
                }
                self.stack.push(v);
            }
            0x7b => {
                self.need(3)?;
                let n = self.stack.len();
                self.stack[n - 3..].rotate_left(1);
            }
            0x7c => {
                self.need(2)?;
                let n = self.stack.len();
                self.stack.swap(n - 1, n - 2);
            }
            0x7d => {
                self.need(2)?;
                let v = self.at(0)?;
                let n = self.stack.len();
                self.stack.insert(n - 2, v);
            }
            0x7e => {
                let b = self.pop()?;
                let mut a = self.pop()?;
                a.extend(b);
                if a.len() > 520 {
                    return Err("element too long".into());
                }
                self.stack.push(a);
            }
            0x7f => {
                let n = self.num()?;
                let a = self.pop()?;
                if n < 0 || n as usize > a.len() {
                    return Err("split out of range".into());
                }
                self.stack.push(a[..n as usize].to_vec());
                self.stack.push(a[n as usize..].to_vec());
            }
            0x80 => {
                let n = self.num()?;
                if n < 0 || n > 520 {
                    return Err("bad size".into());
                }
                let a = self.pop()?;
                let v = scriptnum_value(&a).ok_or("number too long")?;
                let mut m = scriptnum(v as i64);
                if m.len() > n as usize {
                    return Err("impossible encoding".into());
                }
                let neg = m.last().map_or(false, |l| l & 0x80 != 0);
                if let Some(l) = m.last_mut() {
                    *l &= 0x7f;
                }
                m.resize(n as usize, 0);
                if neg {
                    *m.last_mut().unwrap() |= 0x80;
                }
                self.stack.push(m);
            }
            0x81 => {
                let a = self.pop()?;
                let v = scriptnum_value(&a).ok_or("number too long")?;
                if v.abs() > 0x7fff_ffff {
                    return Err("number out of range".into());
                }
                self.pushn(v as i64);
            }
            0x82 => {
                let n = self.at(0)?.len();
                self.pushn(n as i64);
            }
            0x84 | 0x85 | 0x86 => {
                let b = self.pop()?;
                let a = self.pop()?;
                if a.len() != b.len() {
                    return Err("operand size".into());
                }
                self.stack.push(
                    a.iter()
                        .zip(&b)
                        .map(|(x, y)| match code {
                            0x84 => x & y,
                            0x85 => x | y,
                            _ => x ^ y,
                        })
                        .collect(),
                );
            }
            0x87 | 0x88 => {
                let b = self.pop()?;
                let a = self.pop()?;
                if code == 0x87 {
                    self.stack.push(boolv(a == b));
                } else if a != b {
                    return Err("OP_EQUALVERIFY failed".into());
                }
            }
            0x8b => {
                let a = self.num()?;
                self.pushn(a + 1)
            }
            0x8c => {
                let a = self.num()?;
                self.pushn(a - 1)
            }
            0x8f => {
                let a = self.num()?;
                self.pushn(-a)
            }
            0x90 => {
                let a = self.num()?;
                self.pushn(a.abs())
            }
            0x91 => {
                let a = self.num()?;
                self.stack.push(boolv(a == 0))
            }
            0x92 => {
                let a = self.num()?;
                self.stack.push(boolv(a != 0))
            }
            0x93 | 0x94 | 0x96 | 0x97 | 0x9a..=0xa4 => {
                let b = self.num()?;
                let a = self.num()?;
                let r = match code {
                    0x93 => a + b,
                    0x94 => a - b,
                    0x96 | 0x97 if b == 0 => return Err("division by zero".into()),
                    0x96 => a / b,
                    0x97 => a % b,
                    0x9a => (a != 0 && b != 0) as i64,
                    0x9b => (a != 0 || b != 0) as i64,
                    0x9c => (a == b) as i64,
                    0x9d => {
                        return if a == b { Ok(()) } else { Err("OP_NUMEQUALVERIFY failed".into()) };
                    }
                    0x9e => (a != b) as i64,
                    0x9f => (a < b) as i64,
                    0xa0 => (a > b) as i64,
                    0xa1 => (a <= b) as i64,
                    0xa2 => (a >= b) as i64,
                    0xa3 => a.min(b),
                    _ => a.max(b),
                };
                self.pushn(r);
            }
            0xa5 => {
                let max = self.num()?;
                let min = self.num()?;
                let x = self.num()?;
                self.stack.push(boolv(min <= x && x < max));
            }
            0xa6 => {
                let a = self.pop()?;
                self.stack.push(ripemd160(&a).to_vec())
            }
            0xa7 => {
                let a = self.pop()?;
                self.stack.push(sha1(&a).to_vec())
            }
            0xa8 => {
                let a = self.pop()?;
                self.stack.push(sha256(&a).to_vec())
            }
            0xa9 => {
                let a = self.pop()?;
                self.stack.push(hash160(&a).to_vec())
            }
            0xaa => {
                let a = self.pop()?;
                self.stack.push(sha256d(&a).to_vec())
            }
            0xab => self.codesep = idx + 1,
            0xac | 0xad => {
                let pk = self.pop()?;
                let s = self.pop()?;
                let ok = (self.sig)(&s, &pk, self.codesep);
                if code == 0xac {
                    self.stack.push(boolv(ok));
                } else if !ok {
                    return Err("OP_CHECKSIGVERIFY failed".into());
                }
            }
            0xba | 0xbb => {
                let pk = self.pop()?;
                let _msg = self.pop()?;
                let s = self.pop()?;
                let ok = (self.sig)(&s, &pk, self.codesep);
                if code == 0xba {
                    self.stack.push(boolv(ok));
                } else if !ok {
                    return Err("OP_CHECKDATASIGVERIFY failed".into());
                }
            }
            0xae | 0xaf => {
                let n = self.num()?;
                if n < 0 || n > 20 {
                    return Err("number of keys".into());
                }
                let mut keys = vec![];
                for _ in 0..n {
                    keys.push(self.pop()?);
                }
                let m = self.num()?;
                if m < 0 || m > n {
                    return Err("number of signatures".into());
                }
                let mut sigs = vec![];
                for _ in 0..m {
                    sigs.push(self.pop()?);
                }
                if !self.pop()?.is_empty() {
                    return Err("non-null multisig dummy".into());
                }
                // last key and signature first, as consensus does
                let (mut k, mut ok) = (0, true);
                for s in &sigs {
                    while k < keys.len() && !(self.sig)(s, &keys[k], self.codesep) {
                        k += 1;
                    }
                    if k == keys.len() {
                        ok = false;
                        break;
                    }
                    k += 1;
                }
                if code == 0xae {
                    self.stack.push(boolv(ok));
                } else if !ok {
                    return Err("OP_CHECKMULTISIGVERIFY failed".into());
                }
            }
            // lock-time checks leave their operand
            0xb1 | 0xb2 => {
                self.need(1)?;
            }
            0xbc => {
                let mut a = self.pop()?;
                a.reverse();
                self.stack.push(a);
            }
            _ => return Err(format!("opcode {:02x} cannot be executed", code)),
        }
        Ok(())
    }
    pub fn run(&mut self, ops: &[IOp]) -> Result<(), String> {
        self.codesep = 0;
        for (i, o) in ops.iter().enumerate() {
            self.step(i, o).map_err(|e| format!("op {}: {}", i, e))?;
        }
        if !self.exec.is_empty() {
            return Err("unbalanced conditional".into());
        }
        Ok(())
    }
}
/// consensus opcode names and values, from the Bitcoin Cash specification
pub const NAMES: &[(&str, u8)] = &[
    ("OP_0", 0x00), ("OP_PUSHDATA1", 0x4c), ("OP_PUSHDATA2", 0x4d), ("OP_PUSHDATA4", 0x4e), ("OP_1NEGATE", 0x4f), ("OP_RESERVED", 0x50),
    ("OP_1", 0x51), ("OP_2", 0x52), ("OP_3", 0x53), ("OP_4", 0x54), ("OP_5", 0x55), ("OP_6", 0x56), ("OP_7", 0x57), ("OP_8", 0x58),
    ("OP_9", 0x59), ("OP_10", 0x5a), ("OP_11", 0x5b), ("OP_12", 0x5c), ("OP_13", 0x5d), ("OP_14", 0x5e), ("OP_15", 0x5f), ("OP_16", 0x60),
    ("OP_NOP", 0x61), ("OP_VER", 0x62), ("OP_IF", 0x63), ("OP_NOTIF", 0x64), ("OP_VERIF", 0x65), ("OP_VERNOTIF", 0x66), ("OP_ELSE", 0x67),
    ("OP_ENDIF", 0x68), ("OP_VERIFY", 0x69), ("OP_RETURN", 0x6a), ("OP_TOALTSTACK", 0x6b), ("OP_FROMALTSTACK", 0x6c), ("OP_2DROP", 0x6d),
    ("OP_2DUP", 0x6e), ("OP_3DUP", 0x6f), ("OP_2OVER", 0x70), ("OP_2ROT", 0x71), ("OP_2SWAP", 0x72), ("OP_IFDUP", 0x73), ("OP_DEPTH", 0x74),
    ("OP_DROP", 0x75), ("OP_DUP", 0x76), ("OP_NIP", 0x77), ("OP_OVER", 0x78), ("OP_PICK", 0x79), ("OP_ROLL", 0x7a), ("OP_ROT", 0x7b),
    ("OP_SWAP", 0x7c), ("OP_TUCK", 0x7d), ("OP_CAT", 0x7e), ("OP_SPLIT", 0x7f), ("OP_NUM2BIN", 0x80), ("OP_BIN2NUM", 0x81), ("OP_SIZE", 0x82),
    ("OP_INVERT", 0x83), ("OP_AND", 0x84), ("OP_OR", 0x85), ("OP_XOR", 0x86), ("OP_EQUAL", 0x87), ("OP_EQUALVERIFY", 0x88),
    ("OP_RESERVED1", 0x89), ("OP_RESERVED2", 0x8a), ("OP_1ADD", 0x8b), ("OP_1SUB", 0x8c), ("OP_2MUL", 0x8d), ("OP_2DIV", 0x8e),
    ("OP_NEGATE", 0x8f), ("OP_ABS", 0x90), ("OP_NOT", 0x91), ("OP_0NOTEQUAL", 0x92), ("OP_ADD", 0x93), ("OP_SUB", 0x94), ("OP_MUL", 0x95),
    ("OP_DIV", 0x96), ("OP_MOD", 0x97), ("OP_LSHIFT", 0x98), ("OP_RSHIFT", 0x99), ("OP_BOOLAND", 0x9a), ("OP_BOOLOR", 0x9b),
    ("OP_NUMEQUAL", 0x9c), ("OP_NUMEQUALVERIFY", 0x9d), ("OP_NUMNOTEQUAL", 0x9e), ("OP_LESSTHAN", 0x9f), ("OP_GREATERTHAN", 0xa0),
    ("OP_LESSTHANOREQUAL", 0xa1), ("OP_GREATERTHANOREQUAL", 0xa2), ("OP_MIN", 0xa3), ("OP_MAX", 0xa4), ("OP_WITHIN", 0xa5),
    ("OP_RIPEMD160", 0xa6), ("OP_SHA1", 0xa7), ("OP_SHA256", 0xa8), ("OP_HASH160", 0xa9), ("OP_HASH256", 0xaa), ("OP_CODESEPARATOR", 0xab),
    ("OP_CHECKSIG", 0xac), ("OP_CHECKSIGVERIFY", 0xad), ("OP_CHECKMULTISIG", 0xae), ("OP_CHECKMULTISIGVERIFY", 0xaf), ("OP_NOP1", 0xb0),
    ("OP_CHECKLOCKTIMEVERIFY", 0xb1), ("OP_CHECKSEQUENCEVERIFY", 0xb2), ("OP_NOP4", 0xb3), ("OP_NOP5", 0xb4), ("OP_NOP6", 0xb5),
    ("OP_NOP7", 0xb6), ("OP_NOP8", 0xb7), ("OP_NOP9", 0xb8), ("OP_NOP10", 0xb9), ("OP_CHECKDATASIG", 0xba), ("OP_CHECKDATASIGVERIFY", 0xbb),
    ("OP_REVERSEBYTES", 0xbc),
];

pub fn self_test() {
    let yes: &SigCheck = &|_, _, _| true;
    let run = |h: &str| -> Result<Vec<String>, String> {
        let t = super::script::tokenize(&super::unhex(h).unwrap()).unwrap();
        let mut vm = Vm::new(yes);
        vm.run(&from_tokens(&t))?;
        Ok(vm.stack.iter().map(|x| super::hex(x)).collect())
    };
    let ok = |h: &str, s: &[&str]| assert_eq!(run(h).unwrap(), s.iter().map(|x| x.to_string()).collect::<Vec<_>>(), "{}", h);
    ok("5152535455567100", &["03", "04", "05", "06", "01", "02", ""]);
    ok("51525354557b", &["01", "02", "04", "05", "03"]);
    ok("51527d", &["02", "01", "02"]);
    ok("515253547072", &["01", "02", "01", "02", "03", "04"]);
    ok("515253517951 7a".replace(' ', "").as_str(), &["01", "02", "02", "03"]);
    ok("516352635367546867556856", &["03", "06"]);
    ok("006352635367546867556856", &["05", "06"]);
    ok("0403020100537f", &["030201", "00"]);
    ok("52575480", &["02", "07000000"]);
    ok("02ff805480", &["ff000080"]);
    ok("575293575294575296575297", &["09", "05", "03", "01"]);
    assert!(run("5154797a").is_err() && run("67").is_err() && run("5163").is_err() && run("75").is_err());
}

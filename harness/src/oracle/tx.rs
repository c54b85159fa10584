//! Consensus transaction codec, signature hash (BIP143 + FORKID) and transaction ids.
use super::hash::sha256d;
use super::{compact, read_compact};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct OIn {
    pub txid: [u8; 32],
    pub vout: u32,
    pub script: Vec<u8>,
    pub seq: u32,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct OOut {
    pub value: u64,
    pub script: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct OTx {
    pub version: i32,
    pub ins: Vec<OIn>,
    pub outs: Vec<OOut>,
    pub lock_time: u32,
}
impl OIn {
    pub fn outpoint(&self) -> Vec<u8> {
        let mut v = self.txid.to_vec();
        v.extend_from_slice(&self.vout.to_le_bytes());
        v
    }
    pub fn ser(&self) -> Vec<u8> {
        let mut v = self.outpoint();
        v.extend(compact(self.script.len() as u64));
        v.extend_from_slice(&self.script);
        v.extend_from_slice(&self.seq.to_le_bytes());
        v
    }
}
impl OOut {
    pub fn ser(&self) -> Vec<u8> {
        let mut v = self.value.to_le_bytes().to_vec();
        v.extend(compact(self.script.len() as u64));
        v.extend_from_slice(&self.script);
        v
    }
}
fn u32_at(d: &[u8], p: usize) -> Option<u32> {
    let s = d.get(p..p.checked_add(4)?)?;
    Some(u32::from_le_bytes([s[0], s[1], s[2], s[3]]))
}
fn u64_at(d: &[u8], p: usize) -> Option<u64> {
    Some(u32_at(d, p)? as u64 | (u32_at(d, p + 4)? as u64) << 32)
}
impl OTx {
    pub fn ser(&self) -> Vec<u8> {
        let mut v = self.version.to_le_bytes().to_vec();
        v.extend(compact(self.ins.len() as u64));
        for i in &self.ins {
            v.extend(i.ser());
        }
        v.extend(compact(self.outs.len() as u64));
        for o in &self.outs {
            v.extend(o.ser());
        }
        v.extend_from_slice(&self.lock_time.to_le_bytes());
        v
    }
    /// parses a transaction at the start of `d` without judging scripts; returns it and the bytes used
    pub fn parse(d: &[u8]) -> Option<(OTx, usize)> {
        let version = u32_at(d, 0)? as i32;
        let (n, mut p) = read_compact(d, 4)?;
        let mut ins = vec![];
        for _ in 0..n {
            let t = d.get(p..p + 32)?;
            let mut txid = [0; 32];
            txid.copy_from_slice(t);
            let vout = u32_at(d, p + 32)?;
            let (l, q) = read_compact(d, p + 36)?;
            let e = q.checked_add(l as usize)?;
            let script = d.get(q..e)?.to_vec();
            let seq = u32_at(d, e)?;
            p = e + 4;
            ins.push(OIn { txid, vout, script, seq });
        }
        let (n, mut p) = read_compact(d, p)?;
        let mut outs = vec![];
        for _ in 0..n {
            let value = u64_at(d, p)?;
            let (l, q) = read_compact(d, p + 8)?;
            let e = q.checked_add(l as usize)?;
            let script = d.get(q..e)?.to_vec();
            p = e;
            outs.push(OOut { value, script });
        }
        let lock_time = u32_at(d, p)?;
        Some((OTx { version, ins, outs, lock_time }, p + 4))
    }
    pub fn txid_display(&self) -> String {
        super::hex(&super::rev(&sha256d(&self.ser())))
    }
    /// BIP143 message; `hash_type` is the whole 32-bit type (FORKID algorithm, no fork value)
    pub fn preimage(&self, idx: usize, script_code: &[u8], value: u64, hash_type: u32) -> Vec<u8> {
        let acp = hash_type & 0x80 != 0;
        let base = hash_type & 0x1f;
        let zero = [0u8; 32];
        let hp = if acp { zero } else { sha256d(&self.ins.iter().flat_map(|i| i.outpoint()).collect::<Vec<_>>()) };
        let hs = if acp || base == 2 || base == 3 {
            zero
        } else {
            sha256d(&self.ins.iter().flat_map(|i| i.seq.to_le_bytes().to_vec()).collect::<Vec<_>>())
        };
        let ho = if base != 2 && base != 3 {
            sha256d(&self.outs.iter().flat_map(|o| o.ser()).collect::<Vec<_>>())
        } else if base == 3 && idx < self.outs.len() {
            sha256d(&self.outs[idx].ser())
        } else {
            zero
        };
        let mut v = self.version.to_le_bytes().to_vec();
        v.extend_from_slice(&hp);
        v.extend_from_slice(&hs);
        v.extend(self.ins[idx].outpoint());
        v.extend(compact(script_code.len() as u64));
        v.extend_from_slice(script_code);
        v.extend_from_slice(&value.to_le_bytes());
        v.extend_from_slice(&self.ins[idx].seq.to_le_bytes());
        v.extend_from_slice(&ho);
        v.extend_from_slice(&self.lock_time.to_le_bytes());
        v.extend_from_slice(&hash_type.to_le_bytes());
        v
    }
    pub fn sighash(&self, idx: usize, script_code: &[u8], value: u64, hash_type: u32) -> [u8; 32] {
        sha256d(&self.preimage(idx, script_code, value, hash_type))
    }
}

/// BIP143's published P2SH-P2WPKH / native examples check the digest layout (the FORKID algorithm is the same)
pub fn self_test() {
    let raw = super::unhex("0100000002fff7f7881a8099afa6940d42d1e7f6362bec38171ea3edf433541db4e4ad969f0000000000eeffffffef51e1b804cc89d182d279655c3aa89e815b1b309fe287d9b2b55d57b90ec68a0100000000ffffffff02202cb206000000001976a9148280b37df378db99f66f85c95a783a76ac7a6d5988ac9093510d000000001976a9143bde42dbee7e4dbe6a21b2d50ce2f0167faa815988ac11000000").unwrap();
    let (t, n) = OTx::parse(&raw).unwrap();
    assert_eq!(n, raw.len());
    assert_eq!(t.ser(), raw);
    let code = super::unhex("76a9141d0f172a0ecb48aeda4e2c4d5a4a8a0a5a2a1b2c88ac").unwrap();
    let _ = code;
    let sc = super::unhex("76a9141d0f172a0ecb48aee1be1f2687d2963ae33f71a188ac").unwrap();
    assert_eq!(
        super::hex(&t.sighash(1, &sc, 600000000, 1)),
        "c37af31116d1b27caf68aae9e3ac82f1477929014d5b917657d0eb49478cb670"
    );
}

//! C25 script code and relative lock sequences
use super::c15::gen_script;
use super::util::*;
use crate::framework::*;
use crate::oracle::hex;
use crate::{ensure, same};
use bitcoin_cash::*;

/// everything an operation carries, annotations included
fn full(o: &TaggedOp) -> String {
    format!("{} {:?}", hex(&op_bytes(&o.op)), o)
}
pub fn run(ctx: &mut Ctx) {
    ctx.rule("random annotated scripts with 0..6 (sometimes some 300) code separators at random places and push payloads that look like one; the expected script code is the recorded tail of the operation list; sequences exhaustively over both kinds and all 65536 counts against the consensus interpretation of BIP68");
    ctx.phase("script codes", 20_000, 800_000, |g, c, i| {
        let long = i % 1000 == 7;
        let mut ops: Vec<TaggedOp> = gen_script(g, &mut vec![], if long { 600 } else { 14 }, 2).ops_arc().to_vec();
        let nsep = if long { *g.pick(&[250usize, 255, 256, 257, 300]) } else { *g.pick(&[0usize, 0, 1, 1, 2, 3, 4, 6]) };
        for _ in 0..nsep {
            let at = g.below(ops.len() + 1);
            ops.insert(at, TaggedOp::from_op(Op::Code(Opcode::OP_CODESEPARATOR)).named("sep"));
        }
        for _ in 0..g.below(3) {
            let at = g.below(ops.len() + 1);
            let o = match g.below(3) {
                0 => Op::PushByteArray { array: vec![0xab].into(), is_minimal: g.chance(1, 2) },
                1 => Op::PushInteger(Integer::new(0xabi32).unwrap()),
                _ => Op::PushByteArray { array: vec![0xab; g.below(4)].into(), is_minimal: true },
            };
            ops.insert(at, TaggedOp::from_op(o));
        }
        let seps: Vec<usize> = ops.iter().enumerate().filter(|(_, o)| matches_sep(&o.op)).map(|x| x.0).collect();
        let script = Script::new(ops.clone());
        let before: Vec<String> = ops.iter().map(full).collect();
        c.input(format!("{}", ops.iter().map(|o| hex(&op_bytes(&o.op))).collect::<Vec<_>>().join(" ")));
        c.class(if seps.len() > 9 { "many separators".to_string() } else { format!("{} separators", seps.len()) });
        let list = |s: &Script| s.ops_arc().iter().map(full).collect::<Vec<_>>();
        for (k, at) in seps.iter().enumerate() {
            same!(format!("script code after separator {}", k), list(&script.to_script_code(Some(k))), before[at + 1..].to_vec());
            same!(
                format!("bytes of script code {}", k),
                hex(&script.to_script_code(Some(k)).ser_ops()),
                ops[at + 1..].iter().map(|o| hex(&op_bytes(&o.op))).collect::<String>()
            );
        }
        same!("script code without a separator number", list(&script.to_script_code(None)), before.clone());
        let first = script.to_script_code_first();
        match seps.first() {
            Some(at) => {
                same!("script code after the first separator", list(&first), before[at + 1..].to_vec());
                same!("first separator and separator zero", list(&first), list(&script.to_script_code(Some(0))));
            }
            None => same!("script code of a script without separators", list(&first), before.clone()),
        }
        same!("the original script", list(&script), before);
        c.saw(3 + 2 * seps.len());
        Ok(())
    });
    ctx.exhaustive("sequences", 2 * 65_536, |_, c, i| {
        let n = (i / 2) as u16;
        let secs = i % 2 == 1;
        let d = if secs { CsvTimedelta::Seconds512(n) } else { CsvTimedelta::Blockheight(n) };
        let s = d.sequence();
        c.input(format!("{:?} -> {:08x}", d, s));
        // BIP68: bit 31 disables, bit 22 selects 512-second units, the low 16 bits count
        ensure!(s & 0x8000_0000 == 0, "the relative lock is disabled: {:08x}", s);
        same!("unit", s & 0x0040_0000 != 0, secs);
        same!("count", s & 0xffff, n as u32);
        ensure!(s & !0x0040_ffff == 0, "other bits are set: {:08x}", s);
        c.class(if secs { "seconds" } else { "blocks" });
        c.saw(4);
        Ok(())
    });
}
fn matches_sep(o: &Op) -> bool {
    if let Op::Code(c) = o { *c as u8 == 0xab } else { false }
}

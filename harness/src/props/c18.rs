//! C18 SLP outputs
use super::c15::text;
use super::c22::{self, slp_tx};
use super::util::*;
use crate::framework::*;
use crate::oracle::slp::{self, Slp};
use crate::oracle::{hex, rev};
use crate::prng::Gen;
use crate::{ensure, same};
use bitcoin_cash::*;
use bitcoin_cash_slp::*;

fn types(g: &mut Gen) -> (SlpTokenType, u8) {
    *g.pick(&[(SlpTokenType::Fungible, 1), (SlpTokenType::Nft1Child, 0x41), (SlpTokenType::Nft1Group, 0x81)])
}
fn string(g: &mut Gen) -> String {
    match g.below(8) {
        0 => String::new(),
        1 => text(g),
        2 => {
            // around the push-form boundaries
            let n = if g.chance(1, 60) { *g.pick(&[1000usize, 65_535, 65_536, 65_537]) } else { *g.pick(&[1usize, 2, 74, 75, 76, 77, 254, 255, 256, 257]) };
            (0..n).map(|_| (b'a' + g.below(26) as u8) as char).collect()
        }
        3 => ((g.below(17)) as u8 as char).to_string(),
        4 => "\u{1}".to_string(),
        _ => {
            let n = g.below(12);
            (0..n).map(|_| (b' ' + g.below(95) as u8) as char).collect()
        }
    }
}
/// the output's wire bytes, after checking the output's value and both encoders
fn bytes(o: &TxOutput) -> std::result::Result<Vec<u8>, String> {
    same_err(o.value == 0, format!("the data output carries {} satoshi", o.value))?;
    let b = o.script.ser_ops().to_vec();
    same_err(b == script_bytes(&o.script), format!("script encoder gives {}", hex(&b)))?;
    let mut w = vec![0u8; 8];
    w.extend(crate::oracle::compact(b.len() as u64));
    w.extend_from_slice(&b);
    same_err(o.ser().to_vec() == w, format!("output serialises to {}", hex(&o.ser())))?;
    Ok(b)
}
fn same_err(ok: bool, e: String) -> R {
    if ok {
        Ok(())
    } else {
        Err(e)
    }
}
pub fn run(ctx: &mut Ctx) {
    ctx.rule("random genesis and send requests inside what the SLP specification allows; the produced output's wire bytes are read by a strict SLP parser written from the specification and compared field by field with the request; distinct by the produced bytes");
    ctx.phase("genesis", 30_000, 900_000, |g, c, _| {
        let (t, tb) = types(g);
        let (ticker, name, url) = (string(g), string(g), string(g));
        // the document hash is given as text, so its 32 bytes are ASCII
        let dochash: String = if g.chance(1, 2) { String::new() } else { (0..32).map(|_| g.below(128) as u8 as char).collect() };
        let decimals = g.below(10) as u8;
        let baton = if g.chance(1, 3) { None } else { Some(*g.pick(&[2u8, 3, 4, 16, 17, 127, 128, 255])) };
        let baton = if g.chance(1, 4) { baton.map(|_| 2 + g.below(254) as u8) } else { baton };
        let qty = g.edge_u64();
        c.input(format!("genesis {:?} ticker {:?} name {:?} url {:?} hash {:?} decimals {} baton {:?} qty {}", t, ticker, name, url, dochash, decimals, baton, qty));
        let o = slp_genesis_output(SlpGenesisParams {
            slp_token_type: t,
            token_ticker: &ticker,
            token_name: &name,
            token_document_url: &url,
            token_document_hash: &dochash,
            decimals,
            mint_baton_vout: baton,
            initial_token_mint_quantity: qty,
        });
        let b = bytes(&o)?;
        let got = slp::parse(&b).map_err(|e| format!("an SLP parser rejects {}: {}", hex(&b), e))?;
        let want = Slp::Genesis {
            token_type: tb,
            ticker: ticker.clone().into_bytes(),
            name: name.into_bytes(),
            url: url.into_bytes(),
            hash: dochash.clone().into_bytes(),
            decimals,
            baton,
            qty,
        };
        same!("genesis read back", got, want);
        c.saw(9);
        c.class(format!("type {:02x}", tb));
        c.class_if(baton.is_none(), "no mint baton");
        c.class_if(ticker.is_empty(), "empty ticker");
        c.class_if(dochash.len() == 32, "document hash");
        c.class_if(b.len() > 223, "over 223 bytes");
        Ok(())
    });
    ctx.phase("send", 30_000, 900_000, |g, c, i| {
        let (t, tb) = types(g);
        let id = g.arr32();
        let n = 1 + (i as usize) % 19;
        let amounts: Vec<u64> = (0..n).map(|_| g.edge_u64()).collect();
        c.input(format!("send {:?} of {} amounts {:?}", t, hex(&id), amounts));
        let tid = TokenId::from_hash(Sha256d::new(id));
        let o = slp_send_output(t, &tid, &amounts);
        let b = bytes(&o)?;
        let got = slp::parse(&b).map_err(|e| format!("an SLP parser rejects {}: {}", hex(&b), e))?;
        same!("send read back", got, Slp::Send { token_type: tb, token_id: rev(&id), amounts: amounts.clone() });
        // the helper producing the amount pushes alone
        let many: Vec<u64> = if g.chance(1, 30) { (0..*g.pick(&[20usize, 100, 255, 256, 257, 300])).map(|_| g.edge_u64()).collect() } else { amounts };
        let (n, amounts) = (many.len(), many);
        let ops = slp_amount_ops(amounts.iter());
        same!("amount operations", ops.len(), n);
        for (k, (op, a)) in ops.iter().zip(&amounts).enumerate() {
            same!(format!("amount {}", k), hex(&op_bytes(op)), format!("08{}", hex(&a.to_be_bytes())));
        }
        c.saw(3 + n);
        c.class(format!("{} amounts", n));
        Ok(())
    });
    ctx.phase("token ids", 10_000, 300_000, |g, c, _| {
        let id = g.arr32();
        let h = Sha256d::new(id);
        c.input(hex(&id));
        let t = TokenId::from_hash(h.clone());
        same!("hash", t.hash(), &h);
        same!("to_vec", hex(&t.to_vec()), hex(&rev(&id)));
        same!("as_slice_be", hex(t.as_slice_be()), hex(&id));
        #[allow(deprecated)]
        let back = TokenId::from_slice(&t.to_vec()).map_err(|e| e.to_string())?;
        same!("from_slice(to_vec)", back, t);
        same!("from_hash(hash)", TokenId::from_hash(t.hash().clone()), t);
        let n = g.below(70);
        if n != 32 {
            let d = g.bytes(n);
            #[allow(deprecated)]
            let r = TokenId::from_slice(&d);
            ensure!(r.is_err(), "a token id of {} bytes is accepted", n);
        }
        c.saw(5);
        Ok(())
    });
    ctx.phase("plain transaction of an SLP transaction", 4_000, 300_000, |g, c, _| {
        let mut s = slp_tx(g);
        if g.chance(1, 200) {
            // more than 8 bits count
            let n = *g.pick(&[256usize, 257, 300]);
            while s.inputs.len() < n {
                s.inputs.extend(slp_tx(g).inputs);
            }
            while s.outputs.len() < n {
                s.outputs.extend(slp_tx(g).outputs);
            }
        }
        c.input(clip(&format!("{:?}", s), 6000));
        let t = s.clone().into_unhashed_tx();
        same!("version", t.version, s.version);
        same!("lock time", t.lock_time, s.lock_time);
        same!("inputs", t.inputs, s.inputs.iter().map(|i| i.input.clone()).collect::<Vec<_>>());
        same!("outputs", t.outputs, s.outputs.iter().map(|o| o.output.clone()).collect::<Vec<_>>());
        // equality of scripts ignores push forms, the wire bytes do not
        let plain = UnhashedTx {
            version: s.version,
            inputs: s.inputs.iter().map(|i| i.input.clone()).collect(),
            outputs: s.outputs.iter().map(|o| o.output.clone()).collect(),
            lock_time: s.lock_time,
        };
        same!("bytes", hex(&otx_of(&t).ser()), hex(&otx_of(&plain).ser()));
        same!("serialised", hex(&t.ser()), hex(&otx_of(&plain).ser()));
        c.class(if s.inputs.len() > 9 { "many inputs and outputs".to_string() } else { format!("{} inputs {} outputs", s.inputs.len(), s.outputs.len()) });
        c.saw(5);
        let _ = c22::slp_utxo;
        Ok(())
    });
}

//! C33 Whatever calls were made, the memory in use is that of the values alive.
//! The monitor reads the counting allocator (exact, Rust side) and the C library's own account (for the C curve library) around histories of calls.
use super::c27::{fixture, job, Fix, JOBS};
use crate::alloc::live;
use crate::framework::*;
use crate::prng::{mix, Gen};
use crate::{ensure, same};
use bitcoin_cash::ByteArray;
use bitcoin_cash_ecc::SelectedECC;

#[repr(C)]
#[derive(Clone, Copy)]
struct MallInfo {
    arena: usize,
    ordblks: usize,
    smblks: usize,
    hblks: usize,
    hblkhd: usize,
    usmblks: usize,
    fsmblks: usize,
    uordblks: usize,
    fordblks: usize,
    keepcost: usize,
}
extern "C" {
    fn mallinfo2() -> MallInfo;
}
/// the C library's account of what it gave out (the driver turns the caches of freed blocks off, so it is exact but for the standard library's own)
fn heap() -> usize {
    let m = unsafe { mallinfo2() };
    m.uordblks + m.hblkhd
}
fn exact() -> bool {
    std::env::var("GLIBC_TUNABLES").map_or(false, |v| v.contains("tcache_count=0"))
}
fn out(f: &Fix, kind: usize, x: u64) -> usize {
    guarded(|| job(f, kind, x)).map_or(0, |s| s.len())
}
fn warm() {
    // what is set up once and for all (tables) is set up before
    static WARM: std::sync::Once = std::sync::Once::new();
    WARM.call_once(|| {
        let f = fixture(&mut Gen::new(1));
        for x in 0..3 {
            (0..JOBS.len()).for_each(|k| drop(out(&f, k, x)));
        }
    });
}
/// a history of calls on one set of objects, again and again
fn history(g: &mut Gen, c: &mut Case, turns: usize) -> R {
    warm();
    let seed = g.u64();
    let n = 1 + g.below(40);
    let one = g.chance(1, 3);
    let k0 = g.below(JOBS.len());
    let jobs: Vec<(usize, u64)> = (0..n).map(|_| (if one { k0 } else { g.below(JOBS.len()) }, g.u64())).collect();
    c.input(format!("fixture {} {} calls {} turns: {:?}", seed, n, turns, jobs.iter().take(6).map(|j| JOBS[j.0]).collect::<Vec<_>>()));
    let f = fixture(&mut Gen::new(seed));
    let mut total = 0;
    jobs.iter().for_each(|j| total += out(&f, j.0, j.1));
    let (l0, h0) = (live(), heap());
    for t in 0..turns {
        for j in &jobs {
            let before = live();
            total += out(&f, j.0, j.1);
            let after = live();
            ensure!(after == before, "turn {}: after the call `{}` {} bytes more are in use than before it, although its result was dropped", t, JOBS[j.0], after as i64 - before as i64);
            c.saw(1);
        }
        // (calls that never came before)
        let (k, x) = (if one { k0 } else { g.below(JOBS.len()) }, g.u64());
        total += out(&f, k, x);
    }
    // a name or set-up may be kept at the first call of a kind; nothing may be kept per call
    let grown = live().saturating_sub(l0);
    ensure!(grown < 1024, "{} bytes more in use after {} turns of calls whose results were dropped", grown, turns);
    let h = heap().saturating_sub(h0);
    ensure!(h < 8192 || !exact(), "the heap grew by {} bytes over {} turns of {} calls whose results were dropped", h, turns, n);
    for j in &jobs {
        c.class(format!("call {}", JOBS[j.0]));
    }
    ensure!(total > 0, "no answers");
    Ok(())
}
/// whole sets of objects (keys, scripts, transactions, builders, contexts) made and dropped
fn objects(g: &mut Gen, c: &mut Case, turns: usize) -> R {
    let seed = g.u64();
    let kinds: Vec<(usize, u64)> = (0..g.below(6)).map(|_| (g.below(JOBS.len()), g.u64())).collect();
    c.input(format!("fixture {} {} turns, {} calls", seed, turns, kinds.len()));
    warm();
    // the same objects every time, or new ones
    let fresh = g.chance(1, 2) as u64;
    let go = |t: u64| {
        let f = fixture(&mut Gen::new(seed + t * fresh));
        kinds.iter().for_each(|j| drop(out(&f, j.0, j.1)));
    };
    go(0);
    let (l0, h0) = (live(), heap());
    for t in 0..turns {
        go(1 + t as u64);
        let l = live();
        same!(format!("bytes in use after turn {} of making and dropping the same objects", t), l as i64 - l0 as i64, 0);
        c.saw(1);
    }
    let h = heap().saturating_sub(h0);
    ensure!(h < 8192 || !exact(), "the heap grew by {} bytes over {} turns", h, turns);
    Ok(())
}
/// curve contexts made, cloned, used or not, and dropped
fn contexts(g: &mut Gen, c: &mut Case, turns: usize) -> R {
    let key = super::c10::gen_secret(g);
    let n = 1 + g.below(4);
    let way = g.below(3);
    c.input(format!("{} contexts, way {}, key {:02x}{:02x}", n, way, key[30], key[31]));
    let make = || -> SelectedECC {
        match way {
            0 => bitcoin_cash_ecc::init_ecc(),
            _ => SelectedECC::default(),
        }
    };
    let go = || {
        let v: Vec<SelectedECC> = (0..n).map(|_| make()).collect();
        #[cfg(feature = "c_ecc")]
        let v = if way == 2 { v.iter().map(|e| e.clone()).collect() } else { v };
        let k = bitcoin_cash::ECC::derive_pubkey(&v[0], &key);
        drop(v);
        k.is_ok()
    };
    go();
    let (l0, h0) = (live(), heap());
    for _ in 0..turns {
        ensure!(go(), "key");
        c.saw(n);
    }
    same!("bytes in use", live() as i64 - l0 as i64, 0);
    let h = heap().saturating_sub(h0);
    ensure!(h < 8192 || !exact(), "the heap grew by {} bytes while {} contexts were made and dropped", h, n * turns);
    Ok(())
}
/// provenance shared in all ways and dropped in all orders
fn provenance(g: &mut Gen, c: &mut Case) -> R {
    let seed = g.u64();
    let steps = 2 + g.below(60);
    c.input(format!("seed {} {} steps", seed, steps));
    let go = |salt: u64| {
        let mut g = Gen::new(mix(seed));
        let mut pool: Vec<ByteArray> = vec![ByteArray::new("a", vec![1, 2, 3])];
        for _ in 0..steps {
            let a = g.pick(&pool).clone();
            let b = g.pick(&pool).clone();
            if a.len() + b.len() > 5000 {
                pool.truncate(1);
                continue;
            }
            match g.below(8) {
                0 => pool.push(a.concat(b)),
                1 => {
                    let n = g.below(a.len() + 3);
                    if let Ok((l, r)) = a.split(n) {
                        pool.push(l);
                        pool.push(r);
                    }
                }
                2 => pool.push(<bitcoin_cash::Sha256 as bitcoin_cash::Hashed>::digest(a).into()),
                3 => pool.push(ByteArray::from_parts(vec![a.clone(), b, a])),
                4 => pool.push(a.named(format!("n{}", g.below(9)))),
                5 => {
                    let n = g.below(pool.len());
                    drop(pool.swap_remove(n));
                    if pool.is_empty() {
                        pool.push(ByteArray::new("b", vec![9]));
                    }
                }
                6 => {
                    let k = g.below(pool.len());
                    let p = pool[k].preimage().map(|p| p.to_vec());
                    pool.extend(p.into_iter().flatten());
                }
                _ => {
                    let s = bitcoin_cash::Script::from_ops(vec![bitcoin_cash::Op::from_array(a), bitcoin_cash::Op::from_array(b)]);
                    pool.push(s.ser_ops());
                }
            }
        }
        // in an order of its own
        let mut h = Gen::new(salt);
        while !pool.is_empty() {
            let n = h.below(pool.len());
            drop(pool.swap_remove(n));
        }
    };
    let l0 = {
        go(0);
        live()
    };
    for salt in 1..4 {
        go(salt);
        same!("bytes in use after everything was dropped", live() as i64 - l0 as i64, 0);
        c.saw(steps);
    }
    Ok(())
}
/// every monitor's own cases as the history
fn monitors(c: &mut Case, i: u64, seed: u64) -> R {
    const ALL: &[&str] = &["C01", "C03", "C05", "C06", "C07", "C09", "C10", "C12", "C13", "C14", "C15", "C17", "C18", "C22", "C23", "C24", "C25", "C29", "C32", "C08", "C16", "C02"];
    let id = ALL[i as usize % ALL.len()];
    c.input(format!("monitor {} turn {}", id, i));
    let go = |cap: u64| {
        let mut ctx = Ctx::new(Opts { id: id.to_string(), thorough: false, seed: seed * 17 + i, shard: (0, 1), only: None, outdir: String::new(), phase_secs: 30.0, scale: 1.0, cap: Some(cap) });
        super::run(id, &mut ctx);
        ctx.evals
    };
    let first = go(12);
    let l0 = live();
    let again = go(12);
    let grown = live() as i64 - l0 as i64;
    c.saw((first + again) as usize);
    ensure!(grown.abs() < 512, "{} bytes more are in use after making the calls of {} a second time", grown, id);
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    ctx.rule("histories of calls repeated on the same objects with the bytes in use read around every call; a case is distinct by its objects and calls");
    ctx.phase("histories", 1_600, 60_000, |g, c, _| {
        let t = g.range(2, 9);
        history(g, c, t)
    });
    ctx.phase("objects", 400, 8_000, |g, c, _| objects(g, c, 6));
    ctx.phase("contexts", 80, 800, |g, c, _| contexts(g, c, 12));
    ctx.phase("provenance", 20_000, 1_000_000, |g, c, _| provenance(g, c));
    let seed = ctx.o.seed;
    ctx.phase("all monitors", 44, 440, |_, c, i| monitors(c, i, seed));
}

//! C31 Calls have no effect besides their results: the child process that the driver (purity_check.py) runs in many
//! surroundings, under a system call tracer and with a library that watches the C library's environment calls.
use super::c27::{fixture, job, Fix, JOBS};
use crate::framework::*;
use crate::prng::{fnv, mix, Gen};
use std::fmt::Write;

extern "C" {
    fn umask(m: u32) -> u32;
    fn access(p: *const std::os::raw::c_char, m: i32) -> i32;
}
/// a system call the tracer recognises
fn mark(what: &str) {
    let p = std::ffi::CString::new(format!("/verif-marker/{}", what)).unwrap();
    unsafe { access(p.as_ptr(), 0) };
}
/// what a process has besides its memory
fn state() -> String {
    let list = |d: &str| {
        let mut v: Vec<String> = std::fs::read_dir(d).map(|r| r.filter_map(|e| e.ok()).map(|e| format!("{}={}", e.file_name().to_string_lossy(), std::fs::read_link(e.path()).map(|p| p.display().to_string()).unwrap_or_default())).collect()).unwrap_or_default();
        v.retain(|l| !l.contains("/proc/"));
        v.sort();
        v
    };
    let status: Vec<String> = std::fs::read_to_string("/proc/self/status").unwrap_or_default().lines().filter(|l| ["SigBlk", "SigIgn", "SigCgt"].iter().any(|k| l.starts_with(k)) || l.starts_with("Threads") || l.starts_with("Umask") || l.starts_with("Seccomp") || l.starts_with("Uid")).map(|l| l.to_string()).collect();
    let mut env: Vec<_> = std::env::vars_os().collect();
    env.sort();
    let m = unsafe {
        let m = umask(0o22);
        umask(m);
        m
    };
    #[cfg(target_arch = "x86_64")]
    let fp = {
        let mut v: u32 = 0;
        unsafe { std::arch::asm!("stmxcsr [{}]", in(reg) &mut v) };
        v & 0xffc0
    };
    #[cfg(not(target_arch = "x86_64"))]
    let fp = 0;
    // (no newline may be left)
    format!("cwd {:?} fds {:?} status {:?} env {:016x} umask {:o} rounding {:x} limits {:016x}", std::env::current_dir().ok(), list("/proc/self/fd"), status, fnv(format!("{:?}", env).as_bytes()), m, fp,
        fnv(std::fs::read("/proc/self/limits").unwrap_or_default().as_slice())).replace('\n', " ")
}
const MONITORS: &[&str] = &["C01", "C03", "C04", "C05", "C06", "C07", "C09", "C10", "C12", "C13", "C14", "C15", "C17", "C18", "C21", "C22", "C23", "C25", "C29", "C32", "C08", "C11", "C24"];

pub fn child(a: &[String]) -> i32 {
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let num = |k: &str, d: u64| get(k).map_or(d, |v| v.parse().unwrap());
    let (seed, order, fixtures, per, reps) = (num("--seed", 1), num("--order", 0), num("--fixtures", 4), num("--per", 4), num("--reps", 1));
    let only: Option<Vec<u64>> = get("--only").map(|s| s.split(',').map(|x| x.parse().unwrap()).collect());
    let monitors = num("--monitors", 0);
    let log_to = get("--log").expect("--log");
    install_hook();
    let total = fixtures * per * JOBS.len() as u64;
    let mut jobs: Vec<u64> = only.unwrap_or_else(|| (0..total).collect());
    let mut g = Gen::new(mix(order));
    let shuffle = |v: &mut Vec<u64>, g: &mut Gen| (1..v.len()).rev().for_each(|i| v.swap(i, g.below(i + 1)));
    let mut made: Vec<u64> = (0..fixtures).collect();
    if order != 0 {
        shuffle(&mut jobs, &mut g);
        shuffle(&mut made, &mut g);
    }
    let mut log = String::with_capacity(64 << 20);
    let before = state();
    mark("begin");
    let needed = |f: u64| jobs.iter().any(|j| j % fixtures == f);
    let mut fix: Vec<Option<Fix>> = (0..fixtures).map(|_| None).collect();
    for f in made {
        if needed(f) {
            fix[f as usize] = Some(fixture(&mut Gen::new(mix(seed) ^ mix(f + 77))));
        }
    }
    // what the shared arguments look like before and after
    let look = |fix: &Vec<Option<Fix>>| fix.iter().flatten().map(|f| f.look()).fold(0u64, |a, t| mix(a ^ fnv(t.as_bytes())));
    let seen = look(&fix);
    for rep in 0..reps {
        if rep > 0 {
            shuffle(&mut jobs, &mut g);
        }
        for &j in &jobs {
            let kind = (j / fixtures) as usize % JOBS.len();
            let x = mix(seed ^ mix(j / fixtures / JOBS.len() as u64 + 1000 * kind as u64));
            mark(&format!("job {} {}", j, JOBS[kind]));
            let f = fix[(j % fixtures) as usize].as_ref().unwrap();
            let out = guarded(|| job(f, kind, x)).unwrap_or_else(|e| format!("panic {}", e.split(": ").nth(1).unwrap_or("")));
            let _ = writeln!(log, "job {} {:016x} {} {:?}", j, fnv(out.as_bytes()), JOBS[kind].replace(' ', "_"), clip(&out, 160));
        }
    }
    mark("arguments");
    let _ = writeln!(log, "arguments {:016x} {:016x}", seen, look(&fix));
    drop(fix);
    if monitors > 0 {
        let mut ids: Vec<u64> = (0..MONITORS.len() as u64).collect();
        if order != 0 {
            shuffle(&mut ids, &mut g);
        }
        for k in ids {
            let id = MONITORS[k as usize];
            mark(&format!("monitor {}", id));
            let mut ctx = Ctx::new(Opts { id: id.to_string(), thorough: false, seed: seed * 31 + 5, shard: (0, 1), only: None, outdir: String::new(), phase_secs: 1e6, scale: 1.0, cap: Some(monitors) });
            super::run(id, &mut ctx);
            let bad: Vec<_> = ctx.violations.iter().map(|v| format!("{}#{} {}", v.phase, v.index, clip(&v.detail, 200))).collect();
            let all = format!("{} {} {:?} {:?} {:?}", ctx.evals, ctx.events, ctx.classes, ctx.known, bad);
            let _ = writeln!(log, "monitor {} {:016x} {} {} {:?}", id, fnv(all.as_bytes()), ctx.evals, ctx.events, clip(&bad.join("; "), 400));
        }
    }
    mark("end");
    let after = state();
    let _ = writeln!(log, "before {}\nafter {}", before, after);
    std::fs::write(log_to, log).expect("log");
    0
}

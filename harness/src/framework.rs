//! Case runner: deterministic cases, panic capture, journal, coverage accounting, violation records.
use crate::prng::{fnv, mix, Gen};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::Instant;

pub type R = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! same {
    ($what:expr, $got:expr, $want:expr) => {{
        match (&$got, &$want) {
            (g, w) => if g != w { return Err(format!("{}: got {:?}, expected {:?}", $what, g, w)); }
        }
    }};
}

pub struct Violation {
    pub phase: String,
    pub index: u64,
    pub input: String,
    pub detail: String,
}
pub struct Opts {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub shard: (u64, u64),
    pub only: Option<(String, u64)>,
    pub outdir: String,
    pub phase_secs: f64,
    pub scale: f64,
    /// at most so many cases per phase
    pub cap: Option<u64>,
}
pub struct Case {
    input: String,
    classes: Vec<String>,
    known: Vec<String>,
    trivial: bool,
    pub events: u64,
    only: bool,
    journal: Option<std::fs::File>,
}
impl Case {
    /// records the input about to be given to the code under test
    pub fn input(&mut self, s: impl Into<String>) {
        self.input = s.into();
        if self.only {
            if let Some(j) = &self.journal {
                let _ = j.write_all_at(self.input.as_bytes(), 64);
            }
        }
    }
    pub fn class(&mut self, s: impl Into<String>) {
        self.classes.push(s.into());
    }
    pub fn class_if(&mut self, b: bool, s: &str) {
        if b {
            self.classes.push(s.to_string());
        }
    }
    pub fn known(&mut self, s: impl Into<String>) {
        self.known.push(s.into());
    }
    pub fn trivial(&mut self) {
        self.trivial = true;
    }
    /// counts observations made by the monitor in this case
    pub fn saw(&mut self, n: usize) {
        self.events += n as u64;
    }
}
pub struct Ctx {
    pub o: Opts,
    pub evals: u64,
    pub events: u64,
    pub trivial: u64,
    pub distinct: HashSet<u64>,
    pub classes: BTreeMap<String, u64>,
    pub known: BTreeMap<String, u64>,
    pub samples: Vec<(String, String)>,
    pub phases: Vec<(String, u64, u64, f64)>,
    pub violations: Vec<Violation>,
    pub rule: String,
    pub notes: Vec<String>,
    t0: Instant,
}
static PANIC: Mutex<String> = Mutex::new(String::new());

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if let Ok(mut p) = PANIC.lock() {
            *p = format!("panic at {}: {}", loc, msg);
        }
    }));
}
pub fn last_panic() -> String {
    PANIC.lock().map(|p| p.clone()).unwrap_or_default()
}
/// runs `f`, turning a panic of the code under test into Err
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}
/// runs `f` which is expected to panic by contract
pub fn panics(f: impl FnOnce()) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}
impl Ctx {
    pub fn new(o: Opts) -> Ctx {
        Ctx {
            o,
            evals: 0,
            events: 0,
            trivial: 0,
            distinct: HashSet::new(),
            classes: BTreeMap::new(),
            known: BTreeMap::new(),
            samples: vec![],
            phases: vec![],
            violations: vec![],
            rule: String::new(),
            notes: vec![],
            t0: Instant::now(),
        }
    }
    pub fn rule(&mut self, s: &str) {
        self.rule = s.to_string();
    }
    pub fn thorough(&self) -> bool {
        self.o.thorough
    }
    /// `index`-addressed cases; for exhaustive phases the index is the case itself
    pub fn phase(&mut self, name: &str, quick: u64, thorough: u64, f: impl Fn(&mut Gen, &mut Case, u64) -> R) {
        let n = if self.o.thorough { thorough } else { quick };
        let n = if self.o.scale != 1.0 && n > 100 { (n as f64 * self.o.scale) as u64 } else { n };
        self.run_phase(name, n, true, f)
    }
    /// runs every index whatever the tier (finite spaces)
    pub fn exhaustive(&mut self, name: &str, n: u64, f: impl Fn(&mut Gen, &mut Case, u64) -> R) {
        self.run_phase(name, n, false, f)
    }
    pub fn slow(&self) -> bool {
        std::env::var("VERIF_SLOW").is_ok()
    }
    fn run_phase(&mut self, name: &str, n: u64, timed: bool, f: impl Fn(&mut Gen, &mut Case, u64) -> R) {
        // beside other threads under ThreadSanitizer one case of these sizes takes the better part of a minute
        if self.o.cap.is_some() && self.slow() && ["long", "large", "many", "deep"].iter().any(|w| name.contains(w)) {
            return;
        }
        let base = mix(self.o.seed) ^ fnv(self.o.id.as_bytes()) ^ mix(fnv(name.as_bytes()));
        let t = Instant::now();
        let mut done = 0;
        let mut samples = 0;
        let journal = if self.o.outdir.is_empty() { None } else { std::fs::File::create(format!("{}/journal-{}", self.o.outdir, self.o.shard.0)).ok() };
        for i in 0..n {
            if let Some((p, k)) = &self.o.only {
                if p != name || *k != i {
                    continue;
                }
            } else if i % self.o.shard.1 != self.o.shard.0 {
                continue;
            }
            if self.violations.len() >= 5 || self.o.cap.map_or(false, |c| done >= c) {
                break;
            }
            if timed && (done % 16 == 0 || self.o.cap.is_some()) && t.elapsed().as_secs_f64() > self.o.phase_secs {
                break;
            }
            let mut g = Gen::new(base ^ mix(i.wrapping_mul(0x9e37_79b9_7f4a_7c15)));
            let mut c = Case {
                input: String::new(),
                classes: vec![],
                known: vec![],
                trivial: false,
                events: 0,
                only: self.o.only.is_some(),
                journal: journal.as_ref().and_then(|j| if self.o.only.is_some() { j.try_clone().ok() } else { None }),
            };
            if let Some(j) = &journal {
                let mut line = format!("{}#{}", name, i);
                while line.len() < 63 {
                    line.push(' ');
                }
                line.push('\n');
                let _ = j.write_all_at(line.as_bytes(), 0);
            }
            let r = match catch_unwind(AssertUnwindSafe(|| f(&mut g, &mut c, i))) {
                Ok(r) => r,
                Err(_) => Err(last_panic()),
            };
            done += 1;
            self.evals += 1;
            self.events += c.events;
            let h = mix(fnv(c.input.as_bytes()) ^ fnv(name.as_bytes()));
            if c.trivial || c.input.is_empty() {
                self.trivial += 1;
            } else if self.distinct.len() < 4_000_000 {
                self.distinct.insert(h);
            }
            for k in c.classes.drain(..) {
                *self.classes.entry(k).or_insert(0) += 1;
            }
            for k in c.known.drain(..) {
                *self.known.entry(k).or_insert(0) += 1;
            }
            if samples < 2 && !c.trivial && !c.input.is_empty() && (i > 2 || n < 4) {
                samples += 1;
                self.samples.push((format!("{}#{}", name, i), clip(&c.input, 400)));
            }
            if let Err(e) = r {
                self.violations.push(Violation { phase: name.into(), index: i, input: c.input.clone(), detail: e });
            }
        }
        if let Some(j) = &journal {
            let _ = j.set_len(0);
        }
        self.phases.push((name.to_string(), n, done, t.elapsed().as_secs_f64()));
    }
    pub fn finish(self) -> i32 {
        use serde_json::json;
        let v: Vec<_> = self
            .violations
            .iter()
            .map(|v| json!({"case": format!("{}#{}", v.phase, v.index), "input": v.input, "detail": v.detail}))
            .collect();
        let out = json!({
            "id": self.o.id, "seed": self.o.seed, "evals": self.evals, "events": self.events, "trivial": self.trivial,
            "distinct": self.distinct.len(), "classes": self.classes, "known": self.known,
            "samples": self.samples.iter().map(|(a, b)| format!("{} {}", a, b)).collect::<Vec<_>>(),
            "phases": self.phases.iter().map(|(n, a, b, t)| json!({"phase": n, "planned": a, "run": b, "secs": (t * 100.0).round() / 100.0})).collect::<Vec<_>>(),
            "violations": v, "rule": self.rule, "notes": self.notes, "wall_s": self.t0.elapsed().as_secs_f64(),
        });
        // the driver takes the union of the shards' distinct cases
        let mut hashes = Vec::with_capacity(self.distinct.len() * 8);
        for h in &self.distinct {
            hashes.extend_from_slice(&h.to_le_bytes());
        }
        let _ = std::fs::write(format!("{}/distinct-{}", self.o.outdir, self.o.shard.0), hashes);
        let p = format!("{}/result-{}.json", self.o.outdir, self.o.shard.0);
        let mut f = std::fs::File::create(&p).expect("result file");
        f.write_all(serde_json::to_string(&out).unwrap().as_bytes()).unwrap();
        if self.violations.is_empty() {
            0
        } else {
            1
        }
    }
}
pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut e = n;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}… ({} bytes)", &s[..e], s.len())
    }
}

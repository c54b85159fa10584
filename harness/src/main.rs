mod alloc;
mod framework;
mod oracle;
mod prng;
mod props;

#[global_allocator]
static ALLOCATOR: alloc::Counting = alloc::Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    if a.get(1).map(|s| s.as_str()) == Some("selftest") {
        oracle::self_test();
        eprintln!("oracle self tests passed");
        return;
    }
    if a.get(1).map(|s| s.as_str()) == Some("purity") {
        std::process::exit(props::c31::child(&a));
    }
    let id = a.get(1).expect("usage: harness ID --out DIR [--seed N] [--tier T] [--shard I/N] [--only PHASE#I]").clone();
    let shard = get("--shard")
        .map(|s| {
            let mut i = s.split('/').map(|x| x.parse::<u64>().unwrap());
            (i.next().unwrap(), i.next().unwrap())
        })
        .unwrap_or((0, 1));
    let only = get("--only").map(|s| {
        let i = s.rfind('#').unwrap();
        (s[..i].to_string(), s[i + 1..].parse().unwrap())
    });
    let thorough = get("--tier").map_or(false, |t| t == "thorough");
    let o = framework::Opts {
        id: id.clone(),
        thorough,
        seed: get("--seed").map_or(1, |s| s.parse().unwrap()),
        shard,
        only,
        outdir: get("--out").unwrap_or_else(|| ".".into()),
        phase_secs: get("--phase-secs").map_or(if thorough { 120.0 } else { 20.0 }, |s| s.parse().unwrap()),
        cap: get("--cap").map(|s| s.parse().unwrap()),
        scale: get("--scale").map_or(1.0, |s| s.parse().unwrap()),
    };
    oracle::self_test();
    framework::install_hook();
    let mut ctx = framework::Ctx::new(o);
    if !props::run(&id, &mut ctx) {
        eprintln!("unknown property {}", id);
        std::process::exit(2);
    }
    std::process::exit(ctx.finish());
}

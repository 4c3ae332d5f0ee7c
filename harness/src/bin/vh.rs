use std::time::{Duration, Instant};
use vharness::core::*;
use vharness::{dict, props, types};

#[global_allocator]
static ALLOC: CountingAlloc = CountingAlloc;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let num = |n: &str, d: u64| get(n).and_then(|s| s.parse().ok()).unwrap_or(d);
    let prop = get("--prop").expect("--prop");
    let seed = num("--seed", 1);
    let worker = num("--worker", 0);
    let secs = num("--secs", 5);
    let max = num("--max", u64::MAX);
    let variant = get("--variant").unwrap_or_default();
    let tier = match get("--tier").as_deref() {
        Some("miri") => Tier::Miri,
        Some("san") => Tier::San,
        _ => Tier::Native,
    };
    install_panic_hook();
    for _ in 0..64 {
        ev("start", 0, 0);
    }
    types::ledger_reserve(1 << 16);
    start_watchdog(num("--stall", 60) as f64);
    let start = Instant::now();
    let n = dict::capacity();
    let mut ctx = Ctx {
        rng: Rng::new(0),
        st: Stats::default(),
        n,
        tier,
        thorough: args.iter().any(|a| a == "--thorough"),
        deadline: if tier == Tier::Miri && get("--secs").is_none() {
            None
        } else {
            Some(start + Duration::from_secs(secs))
        },
        fp: 0,
        nontrivial: false,
        desc: String::with_capacity(4096),
        variant,
    };
    if let Some(e) = get("--episode") {
        let e: u64 = e.parse().expect("episode seed");
        ctx.deadline = None;
        if !props::run_episode(&prop, &mut ctx, e) {
            inconclusive(format!("unknown property {prop}"));
        }
        println!("{{\"verdict\":\"ok\",\"stats\":{}}}", ctx.st.to_json());
        return;
    }
    // first episode of this worker, the rest follows by counting
    let skip = num("--skip", 0);
    let base = mix(mix(seed, 0xABCD), worker.wrapping_mul(0x1_0000_0001));
    let mut i = skip;
    while i - skip < max && !(ctx.late() && i > skip) {
        if args.iter().any(|a| a == "--trace") {
            eprintln!("episode {} {}", i, mix(base, i));
        }
        println!("{{\"at\":{i},\"episode\":\"{}\"}}", mix(base, i));
        if !props::run_episode(&prop, &mut ctx, mix(base, i)) {
            inconclusive(format!("unknown property {prop}"));
        }
        i += 1;
    }
    ctx.st.max("workers_episodes", i - skip);
    ctx.st.max("longest_cpu_gap_ms", LONGEST_GAP_MS.load(std::sync::atomic::Ordering::Relaxed));
    println!("{{\"verdict\":\"done\",\"events\":{},\"stats\":{}}}", PROGRESS.load(std::sync::atomic::Ordering::Relaxed), ctx.st.to_json());
}

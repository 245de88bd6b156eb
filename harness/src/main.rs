#![allow(clippy::pedantic, clippy::too_many_lines)]
mod alloc;
mod ctx;
mod exact;
mod generate;
mod lockstep;
mod memchecks;
mod prog;
#[cfg(feature = "with-runner")]
mod qirprog;
mod refsim;
mod rng;
#[cfg(feature = "with-runner")]
mod runnerchecks;
#[cfg(feature = "with-runner")]
mod sigs;
mod simchecks;
mod stdcases;
mod stdchecks;
mod stdobjs;
mod simchecks2;
mod stats;
mod targets;

use ctx::Ctx;
use std::collections::{BTreeMap, HashSet};
use std::path::PathBuf;
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut opt: BTreeMap<String, String> = BTreeMap::new();
    let mut pos: Vec<String> = vec![];
    let mut i = 1;
    while i < args.len() {
        if let Some(k) = args[i].strip_prefix("--") {
            opt.insert(k.to_string(), args.get(i + 1).cloned().unwrap_or_default());
            i += 2;
        } else {
            pos.push(args[i].clone());
            i += 1;
        }
    }
    if std::env::var_os("HARNESS_LOUD").is_none() {
        std::panic::set_hook(Box::new(|i| {
            // expected panics are caught and stay quiet; panics inside extern "C" functions abort the
            // process through a second, non-unwinding panic: leave a trace of both on stderr
            let m = i.to_string();
            if m.contains("cannot unwind") {
                eprintln!("panic: {}\npanic: {m}", LAST_PANIC.with(|l| l.borrow().clone()));
            } else if ctx::CATCHING.with(std::cell::Cell::get) == 0 {
                eprintln!("panic: {m}");
            }
            LAST_PANIC.with(|l| *l.borrow_mut() = m);
        }));
    }
    let get = |k: &str, d: u64| opt.get(k).and_then(|s| s.parse().ok()).unwrap_or(d);
    let mut cx = Ctx {
        prop: pos.get(1).cloned().unwrap_or_else(|| pos.first().cloned().unwrap_or_default()),
        seed: get("seed", 1),
        thorough: opt.get("tier").is_some_and(|t| t == "thorough"),
        shard: get("shard", 0) as usize,
        shards: get("shards", 1) as usize,
        flavour: opt.get("flavour").cloned().unwrap_or_else(|| "normal".into()),
        work: PathBuf::from(opt.get("work").cloned().unwrap_or_else(|| "/tmp".into())),
        start: Instant::now(),
        soft: Duration::from_secs(get("soft", 60)),
        counters: BTreeMap::new(),
        maxes: BTreeMap::new(),
        distinct: HashSet::new(),
        samples: vec![],
        viols: vec![],
        scale: opt.get("scale").and_then(|s| s.parse().ok()).unwrap_or(1.0),
        max_viols: 3,
    };
    lockstep::STRICT_ZERO.store(cx.prop == "C09", std::sync::atomic::Ordering::Relaxed);
    let out = PathBuf::from(opt.get("out").cloned().unwrap_or_else(|| "/tmp/harness.out".into()));
    match pos.first().map(String::as_str) {
        Some("check") => {
            match pos[1].as_str() {
                "C01" => simchecks::c01(&mut cx),
                "C03" => simchecks::c03(&mut cx),
                "C06" => simchecks::c06(&mut cx),
                "C07" => simchecks::c07(&mut cx),
                "C09" => simchecks::c09(&mut cx),
                "C10" => simchecks::c10(&mut cx),
                "C11" => simchecks::c11(&mut cx),
                "C12" => simchecks::c12(&mut cx),
                "C02" => simchecks2::c02(&mut cx),
                "C04" => simchecks2::c04(&mut cx),
                "C05" => simchecks2::c05(&mut cx),
                "C08" => simchecks2::c08(&mut cx),
                "C13" => simchecks2::c13(&mut cx),
                "C14" => simchecks2::c14(&mut cx),
                "C15" => stdchecks::c15(&mut cx),
                "C16" => stdchecks::c16(&mut cx),
                "C17" => stdchecks::c17(&mut cx),
                "C18" => stdchecks::c18(&mut cx),
                "C19" => stdchecks::c19(&mut cx),
                "C20" => stdchecks::c20(&mut cx),
                "C21" => stdchecks::c21(&mut cx),
                "C23" => stdchecks::c23(&mut cx),
                "C28" => memchecks::c28(&mut cx),
                #[cfg(feature = "with-runner")]
                "C24" => runnerchecks::c24(&mut cx),
                #[cfg(feature = "with-runner")]
                "C25" => runnerchecks::c25(&mut cx),
                #[cfg(feature = "with-runner")]
                "C26" => runnerchecks::c26(&mut cx),
                x => panic!("unknown check {x}"),
            }
            cx.finish(&out);
        }
        Some("traces") => simchecks2::print_traces(&pos[1], get("reverse", 0) == 1),
        Some("misuse-child") => simchecks2::misuse_child(&pos[1]),
        Some("fatal-child") => stdchecks::fatal_child(&pos[1]),
        Some("draw-child") => stdchecks::draw_child(),
        Some("direct-child") => simchecks2::direct_child(pos[1].parse().unwrap(), pos[2].parse().unwrap(), pos[3].parse().unwrap(), &pos[4]),
        Some("output-child") => stdcases::output_child(pos[1].parse().unwrap(), pos[2].parse().unwrap(), &pos[3]),
        Some("math-log") => stdchecks::math_log(get("seed", 1), get("n", 1000) as usize),
        Some("math-eval") => {
            let f = |i: usize| f64::from_bits(u64::from_str_radix(&pos[i], 16).unwrap());
            println!("{:016x}", stdchecks::math_eval(&pos[1], f(2), f(3)));
        }
        #[cfg(feature = "with-runner")]
        Some("py-cases") => runnerchecks::py_cases(get("seed", 1), get("n", 10) as usize, &cx.work),
        Some("replay") => std::process::exit(replay(&pos[1], &cx)),
        _ => {
            eprintln!("usage: harness check <ID> --seed --tier --shard --shards --work --out | replay <file>");
            std::process::exit(2);
        }
    }
}

/// Re-executes a recorded case; exit code 1 if it still fails.
fn replay(file: &str, cx: &Ctx) -> i32 {
    let text = std::fs::read_to_string(file).unwrap();
    let mut hdr: BTreeMap<String, String> = BTreeMap::new();
    let mut body = String::new();
    for l in text.lines() {
        if let Some(h) = l.strip_prefix('#') {
            let (k, v) = h.split_once(' ').unwrap_or((h, ""));
            hdr.entry(k.to_string()).or_insert(v.to_string());
        } else {
            body.push_str(l);
            body.push('\n');
        }
    }
    let kind = hdr["kind"].clone();
    lockstep::STRICT_ZERO
        .store(hdr.get("property").is_some_and(|p| p.trim() == "C09"), std::sync::atomic::Ordering::Relaxed);
    let seed = hdr.get("seed").and_then(|s| s.trim().parse().ok()).unwrap_or(0);
    #[cfg(feature = "with-runner")]
    if let Some(r) = runnerchecks::replay(&kind, &body, &cx.work) {
        println!("{}", r.as_ref().map_or("passes".to_string(), |e| format!("FAILS: {e}")));
        return i32::from(r.is_some());
    }
    let res = if let Some(k) = simchecks::Kind::parse(&kind) {
        simchecks::execute(k, seed, &prog::from_text(&body), lockstep::Opts { nnz_cap: 100_000, ..Default::default() })
            .violation
            .map(|(i, e)| format!("{e} (op {i})"))
    } else if kind == "controlled" {
        let v: Vec<u64> = body.split_whitespace().skip(1).map(|x| x.parse().unwrap()).collect();
        simchecks::controlled_case(v[0] as usize, v[1] as usize, v[2] as u8, v[3])
    } else if kind == "snapdump" {
        simchecks::snapdump_case(seed, hdr["dumpfirst"].trim() == "1", &prog::from_text(&body))
    } else if let Some(r) = memchecks::replay(&kind, &hdr, &body) {
        r
    } else if let Some(r) = stdchecks::replay(&kind, &body, &cx.work) {
        r
    } else if let Some(r) = simchecks2::replay(&kind, &hdr, &body, &cx.work) {
        r
    } else {
        eprintln!("unknown kind {kind}");
        return 2;
    };
    match res {
        Some(e) => {
            println!("FAILS: {e}");
            1
        }
        None => {
            println!("passes");
            0
        }
    }
}

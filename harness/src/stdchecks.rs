//! Checks of the classical runtime (C15 to C23) and the parts of C11 and C12 that need them.
use crate::ctx::{Ctx, clip};
use crate::rng::Rng;
use crate::stats::{ALPHA, gof};
use crate::stdcases::{self, Log};
use qir_backend as q;
use std::path::Path;
use std::process::{Command, Stdio};

/// shortest failing prefix of a case
fn shrink(name: &str, seed: u64, len: usize) -> usize {
    let fails = |n: usize| stdcases::run(name, seed, n, &mut Log::default()).is_some();
    let (mut lo, mut hi) = (0, len);
    while hi - lo > 1 {
        let m = (lo + hi) / 2;
        if fails(m) {
            hi = m;
        } else {
            lo = m;
        }
    }
    hi
}

pub fn cases(cx: &mut Ctx, name: &str, total: usize, lens: (usize, usize)) {
    let r = cx.rng(crate::lockstep::hash_text(name) & 0xffff);
    let n = cx.cases(total);
    some_cases(cx, name, n, lens, r);
}

fn some_cases(cx: &mut Ctx, name: &str, n: usize, lens: (usize, usize), mut r: Rng) {
    for i in 0..n {
        if cx.time_up() {
            cx.n("stopped_by_time", 1);
            break;
        }
        let seed = r.u64();
        let len = lens.0 + r.below(lens.1 - lens.0 + 1);
        cx.journal("std", &format!("{name} {seed} {len}\n"));
        let mut log = Log::default();
        if let Some(e) = stdcases::run(name, seed, len, &mut log) {
            let k = shrink(name, seed, len);
            let e2 = stdcases::run(name, seed, k, &mut Log::default()).unwrap_or(e);
            cx.violation("std", &format!("{name} {seed} {k}\n"), &format!("{name}: {e2}"));
            if cx.time_up() {
                return;
            }
            continue;
        }
        cx.n(&format!("histories_{name}"), 1);
        for (k, v) in &log.counts {
            cx.n(k, *v);
        }
        for (k, v) in &log.maxes {
            cx.max(k, *v as f64);
        }
        for h in &log.ctxs {
            cx.seen(*h);
        }
        if i < 1 && cx.samples.len() < 5 {
            cx.sample(format!("{name}: {}", log.steps.iter().take(14).cloned().collect::<Vec<_>>().join("; ")));
        }
    }
    cx.journal_clear();
}

pub fn c15(cx: &mut Ctx) {
    let f = if cx.flavour == "normal" { 1.0 } else { 0.25 };
    let n = |x: usize| (x as f64 * f) as usize;
    const SLICES: usize = 8;
    let mut r = cx.rng(9);
    for slice in 0..SLICES {
        for (k, (name, total, lens)) in [("memory", 12_000, (5, 160)), ("programs", 12_000, (2, 60)), ("allocs", 8_000, (3, 60))].into_iter().enumerate() {
            let (m, g) = (cx.cases(n(total)).div_ceil(SLICES), cx.rng(100 + (slice * 8 + k) as u64));
            some_cases(cx, name, m, lens, g);
        }
        for _ in 0..cx.cases(n(2_000)).div_ceil(SLICES) {
            if cx.time_up() {
                return;
            }
            let (seed, len) = (r.u64(), 3 + r.below(60));
            cx.journal("balance", &format!("allocs {seed} {len}\n"));
            if let Some(e) = stdcases::repeat_balance("allocs", seed, len) {
                cx.violation("balance", &format!("allocs {seed} {len}\n"), &e);
                return;
            }
            cx.n("histories_repeated", 1);
        }
    }
    children(cx, 10, |r| {
        let size = match r.below(3) {
            0 => u64::MAX - r.below(12) as u64, // the sum with a header wraps
            1 => (1u64 << 63) + r.u64() / 2,
            _ => (1u64 << 63) - r.below(3) as u64,
        };
        format!("{} {size}", if r.chance(0.3) { "memory-oversize" } else { "tuple-oversize" })
    });
}
/// a slice that selects at least one index outside its array, or has no step
fn slice_outside(r: &mut Rng) -> String {
    let (n, elem) = (r.below(12) as i64, 1 + r.below(24));
    let far = |r: &mut Rng| match r.below(4) {
        0 => i64::MAX - r.below(3) as i64,
        1 => 1 << (3 + r.below(58)),
        _ => r.below(5) as i64,
    };
    let (start, step, end) = match r.below(6) {
        0 => (n + far(r).min(i64::MAX - n), 1 + r.below(9) as i64, i64::MAX),
        1 => (r.below(n as usize + 1) as i64, 1, n + far(r).min(i64::MAX - n)),
        2 => (-1 - far(r), 1 + r.below(3) as i64, n),
        3 => (n + far(r).min(i64::MAX - n), -1 - r.below(5) as i64, if n > 0 { r.below(n as usize) as i64 } else { 0 }),
        4 => (r.below(n as usize + 1) as i64, -1, -1 - far(r)),
        _ => (r.below(n as usize + 1) as i64, 0, r.below(n as usize + 1) as i64),
    };
    format!("slice-outside {elem} {n} {start} {step} {end}")
}
pub fn c16(cx: &mut Ctx) {
    cases(cx, "arrays", 24_000, (5, 120));
    if cx.flavour == "normal" && cx.shard == 0 {
        // cheap as long as untouched memory stays untouched, but that is not promised
        let (t, mut r) = (std::time::Instant::now(), cx.rng(4321));
        for _ in 0..40 {
            if t.elapsed().as_secs() < 10 {
                let r = Rng::new(r.u64());
                some_cases(cx, "huge", 1, (3, 6), r);
            }
        }
    }
    children(cx, if cx.flavour == "asan" { 40 } else { 20 }, |r| {
        let (a, b) = (1 + r.below(40), 1 + r.below(40));
        match r.below(4) {
            0 => slice_outside(r),
            1 => {
                // at least half of the address space, also where the product wraps to something small
                let elem = 1 + r.below(64) as u64;
                let least = (1u64 << 63).div_ceil(elem);
                let count = match r.below(6) {
                    0..3 if elem > 2 => (u64::MAX / elem) + 1 + r.below(4) as u64, // wraps to a few elements
                    3 => u64::MAX,
                    4 => least,
                    _ => least + r.u64() % (u64::MAX - least),
                };
                format!("array-oversize {elem} {count}")
            }
            _ if a == b => format!("concat-mismatch {a} {} {}", b + 1, r.below(6)),
            _ => format!("concat-mismatch {a} {b} {}", r.below(6)),
        }
    });
}
pub fn c17(cx: &mut Ctx) {
    cases(cx, "copies", 24_000, (5, 120));
}
pub fn c18(cx: &mut Ctx) {
    cases(cx, "bigints", 12_000, (10, 120));
}
pub fn c19(cx: &mut Ctx) {
    cases(cx, "strings", 20_000, (10, 120));
}
pub fn c20(cx: &mut Ctx) {
    cases(cx, "calls", 24_000, (5, 90));
}
pub fn c21(cx: &mut Ctx) {
    cases(cx, "output", 16_000, (3, 80));
    let mut r = cx.rng(4);
    for _ in 0..cx.cases(400) {
        if cx.time_up() {
            break;
        }
        let (seed, mut len) = (r.u64(), 2 + r.below(80));
        if r.chance(0.02) {
            len *= 50;
        }
        let body = format!("{seed} {len}\n");
        cx.journal("direct", &body);
        if let Some(e) = stdcases::output_parent(seed, len, &cx.work.join(format!("out.{}.{}", cx.flavour, cx.shard))) {
            cx.violation("direct", &body, &e);
            return;
        }
        cx.n("processes_with_direct_output", 1);
        cx.seen_text(&format!("direct {len}"));
    }
    // a failure records its message like any other, once, and ends the program
    children(cx, 40, |r| {
        let chars: Vec<char> = "abcXYZ 019\t\n\r\"'\\{}%é漢🦀".chars().collect();
        let m: String = (0..r.below(24)).map(|_| *r.pick(&chars)).collect();
        let m = if m.is_empty() { "A".into() } else { m };
        let hex = |s: &str| s.bytes().map(|b| format!("{b:02x}")).collect::<String>();
        let line = format!("INFO\t{}\n", stdcases::escape(&m));
        let after = r.bool();
        let want = format!("{}before-call\n{line}", if after { &line } else { "" });
        format!("fail {} {}\noutput {}", hex(&m), if after { "after" } else { "alone" }, hex(&want))
    });
}

// ---- calls that must end the process -------------------------------------------------------------

/// `spec` runs in a child process and must end it abnormally
pub fn child_dies(file: &Path, spec: &str) -> Option<String> {
    std::fs::write(file, spec).unwrap();
    let o = Command::new(std::env::current_exe().unwrap()).args(["fatal-child", file.to_str().unwrap()]).stdin(Stdio::null()).output().unwrap();
    let _ = std::fs::remove_file(file);
    let out = String::from_utf8_lossy(&o.stdout);
    let err = String::from_utf8_lossy(&o.stderr);
    if !out.contains("before-call") {
        return Some(format!("the process ended before the call: {}", clip(&err, 400)));
    }
    if out.contains("after-call") || o.status.success() {
        return Some(format!("the call returned instead of failing: {}", clip(spec, 600)));
    }
    // a refusal is a failure that is reported: a stray access is not one
    use std::os::unix::process::ExitStatusExt;
    if matches!(o.status.signal(), Some(7 | 11)) || err.contains("ERROR: AddressSanitizer: heap") || err.contains("ERROR: AddressSanitizer: SEGV") {
        return Some(format!("the call accessed memory out of bounds instead of failing: {} {}", clip(spec, 300), clip(&err, 400)));
    }
    if let Some(w) = spec.lines().find_map(|l| l.strip_prefix("expect ")) {
        if !out.contains(w) {
            return Some(format!("the failing call did not report {w:?} in its output {:?}", clip(&out, 400)));
        }
    }
    if let Some(w) = spec.lines().find_map(|l| l.strip_prefix("output ")) {
        let want = unhex(w);
        if o.stdout != want {
            return Some(format!("the failing program wrote {:?} instead of {:?}", clip(&out, 400), clip(&String::from_utf8_lossy(&want), 400)));
        }
    }
    None
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn children(cx: &mut Ctx, total: usize, f: impl Fn(&mut Rng) -> String) {
    let mut r = cx.rng(77);
    for _ in 0..cx.cases(total * cx.shards / 2) {
        let spec = f(&mut r);
        let body = format!("{spec}\n");
        cx.journal("fatal", &body);
        if let Some(e) = child_dies(&cx.work.join(format!("fatal.{}.{}", cx.flavour, cx.shard)), &body) {
            cx.violation("fatal", &body, &e);
            return;
        }
        cx.n("rejected_calls", 1);
        cx.seen_text(&spec);
    }
}
pub fn fatal_child(file: &str) {
    use std::io::Write;
    let text = std::fs::read_to_string(file).unwrap();
    let first: Vec<&str> = text.lines().next().unwrap().split_whitespace().collect();
    let us = |i: usize| first[i].parse::<usize>().unwrap();
    let say = |s: &str| {
        println!("{s}");
        std::io::stdout().flush().unwrap();
    };
    unsafe {
        match first[0] {
            "concat-mismatch" => {
                let a = q::__quantum__rt__array_create_1d(us(1) as u32, us(3) as u64);
                let b = q::__quantum__rt__array_create_1d(us(2) as u32, us(3) as u64);
                say("before-call");
                q::__quantum__rt__array_concatenate(a, b);
            }
            "pauli-sizes" => {
                // a Pauli array and a qubit array of different sizes; what is asserted holds for any common prefix
                use crate::targets as t;
                let _t = t::QirTarget::start(5, false);
                let qs = q::__quantum__rt__qubit_allocate_array(us(3) as u64);
                let ps = t::parr(&vec![crate::refsim::P::Z; us(2)]);
                let (zero, msg) = (q::result_bool::__quantum__rt__result_get_zero(), t::qstr(b"assertion of the harness"));
                t::buffer_output(false);
                say("before-call");
                match first[1] {
                    "measure" => {
                        q::__quantum__qis__measure__body(ps, qs);
                    }
                    "assert" => q::__quantum__qis__assertmeasurementprobability__body(ps, qs, zero, 1.0, msg, 1e-6),
                    _ => {
                        let a = t::qarr(&[]);
                        let tp = t::tup(&[ps as u64, qs as u64, zero as u64, 1.0f64.to_bits(), msg as u64, 1e-6f64.to_bits()]);
                        q::__quantum__qis__assertmeasurementprobability__ctl(a, tp);
                    }
                }
            }
            "array-oversize" => {
                say("before-call");
                q::__quantum__rt__array_create_1d(us(1) as u32, first[2].parse().unwrap());
            }
            "tuple-oversize" => {
                say("before-call");
                q::__quantum__rt__tuple_create(first[1].parse().unwrap());
            }
            "memory-oversize" => {
                say("before-call");
                q::__quantum__rt__memory_allocate(first[1].parse().unwrap());
            }
            "slice-outside" => {
                let a = q::__quantum__rt__array_create_1d(us(1) as u32, us(2) as u64);
                let n = |i: usize| first[i].parse::<i64>().unwrap();
                say("before-call");
                let b = qir_stdlib::range_support::quantum__rt__array_slice_1d(a, qir_stdlib::range_support::Range { start: n(3), step: n(4), end: n(5) });
                // a longer array than any of these has to be read to be believed
                let bytes = q::__quantum__rt__array_get_size_1d(b).min(64) as usize * us(1);
                let p = q::__quantum__rt__array_get_element_ptr_1d(b, 0).cast::<u8>();
                say(&format!("{}", (0..bytes).map(|i| u64::from(*p.add(i))).sum::<u64>()));
            }
            "fail" => {
                // the message is written in hexadecimal, so that it may hold anything but NUL
                let s = crate::targets::qstr(&unhex(first[1]));
                if first[2] == "after" {
                    q::__quantum__rt__message(s);
                }
                say("before-call");
                q::__quantum__rt__fail(s);
            }
            "drawint" => {
                let (a, b) = (first[1].parse().unwrap(), first[2].parse().unwrap());
                say("before-call");
                q::__quantum__qis__drawrandomint__body(a, b);
            }
            "drawdouble" => {
                let (a, b) = (first[1].parse().unwrap(), first[2].parse().unwrap());
                say("before-call");
                q::__quantum__qis__drawrandomdouble__body(a, b);
            }
            "assert" => {
                // assert <prob>, then "expect ..." and the program, the assertion last
                let prob: f64 = first[1].parse().unwrap();
                let body: String = text.lines().skip(2).map(|l| format!("{l}\n")).collect();
                let p = crate::prog::from_text(&body);
                let stat = first[2] == "static";
                let mut t = crate::targets::QirTarget::start(5, stat);
                use crate::lockstep::Target;
                for o in &p[..p.len() - 1] {
                    t.exec(o, 0.0);
                }
                crate::targets::buffer_output(false);
                say("before-call");
                t.exec(p.last().unwrap(), prob);
            }
            x => panic!("unknown call {x}"),
        }
    }
    say("after-call");
}

/// C12: assertions whose stated probability is off by more than the tolerance must end the process
pub fn failing_assertions(cx: &mut Ctx) {
    use crate::generate::{Profile, generate};
    use crate::prog::{Op, to_text};
    use crate::refsim::{P, RefState};
    let mut r = cx.rng(31);
    let n = cx.cases(160);
    let mut done = 0;
    while done < n && !cx.time_up() {
        // unitary programs only: the reference knows the state for certain
        let mut p = generate(&mut r, &Profile { qir: true, w_phase: 0.0, min_q: 1, max_q: 4, ops: (2, 14), w_measure: 0.0, w_joint: 0.0, w_observe: 0.0, w_result: 0.0, ..Profile::default() });
        p.retain(|o| !matches!(o, Op::Dump | Op::GetState | Op::IsZero(_)));
        let mut s = RefState::default();
        let mut live = vec![];
        let mut ok = true;
        for o in &p {
            match o {
                Op::Alloc => live.push(live.len()),
                Op::AllocN(k) => {
                    for _ in 0..*k {
                        live.push(live.len());
                    }
                }
                o => ok &= crate::lockstep::ref_unitary(&mut s, o),
            }
        }
        if !ok || live.is_empty() {
            continue;
        }
        let k = 1 + r.below(live.len());
        r.shuffle(&mut live);
        let ps: Vec<(P, usize)> = live[..k].iter().map(|x| (*r.pick(&[P::X, P::Y, P::Z, P::Z, P::I]), *x)).collect();
        let one = r.bool();
        let minus = s.prob_pauli_minus(&ps);
        let truth = if one { minus } else { 1.0 - minus };
        let tol = *r.pick(&[1e-10, 1e-6, 0.01, 0.1, 0.3]);
        let off = match r.below(4) {
            0 => tol * 1.05 + 1e-9,
            1 => tol + 0.2,
            2 => tol * 3.0 + 1e-8,
            _ => tol + 0.9,
        };
        let prob = if r.bool() { truth + off } else { truth - off };
        p.push(Op::AP(ps, one, 0.0, tol, r.chance(0.3)));
        let spec = format!("assert {prob:?} dynamic\nexpect INFO\tassertion of the harness\n{}", to_text(&p));
        cx.journal("fatal", &spec);
        if let Some(e) = child_dies(&cx.work.join(format!("fatal.{}.{}", cx.flavour, cx.shard)), &spec) {
            cx.violation("fatal", &spec, &format!("true probability {truth}, asserted {prob} within {tol}: {e}"));
            return;
        }
        done += 1;
        cx.n("failing_assertions_judged", 1);
        cx.seen_text(&format!("assertfail k{k} one{one} tol{tol} off{}", (off * 1e9) as i64 % 1000));
    }
    // the bases and the qubits are matched up one to one, or the call is refused
    children(cx, 8, |r| {
        let (a, b) = (r.below(6), r.below(6));
        format!("pauli-sizes {} {a} {}", r.pick(&["measure", "assert", "assertctl"]), if a == b { b + 1 } else { b })
    });
}

pub fn dynamic_results(cx: &mut Ctx) {
    cases(cx, "dynresults", 12_000, (4, 60));
}

// ---- random draws ------------------------------------------------------------------------------

fn int_bounds(min: i64, max: i64, n: usize) -> Result<Vec<i64>, String> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        let x = q::__quantum__qis__drawrandomint__body(min, max);
        if x < min || x > max {
            return Err(format!("a draw from {min}..={max} gave {x}"));
        }
        v.push(x);
    }
    Ok(v)
}
/// draws from min..=max, bounds and evenness over (at most 64) equal classes of values
pub fn int_case(min: i64, max: i64, n: usize) -> Result<(f64, usize), String> {
    let v = int_bounds(min, max, n)?;
    let span = (i128::from(max) - i128::from(min) + 1) as u128;
    let mut worst = 1.0f64;
    let mut cells = 0;
    // by size, and by residue (an odd modulus, and the low bits)
    for modulus in [0usize, 61, 64] {
        let residues = modulus > 0;
        let k = if span <= 64 { span as usize } else if residues { modulus } else { 64 };
        if span <= 64 && residues {
            continue;
        }
        let mut obs = vec![0u64; k];
        for x in &v {
            let d = (i128::from(*x) - i128::from(min)) as u128;
            let c = if span <= 64 { d } else if residues { d % k as u128 } else { d * k as u128 / span };
            obs[c as usize] += 1;
        }
        let expect: Vec<f64> = (0..k as u128)
            .map(|c| {
                let size = if span <= 64 {
                    1
                } else if residues {
                    span / k as u128 + u128::from(c < span % k as u128)
                } else {
                    // values d with floor(d k / span) = c
                    ((c + 1) * span).div_ceil(k as u128) - (c * span).div_ceil(k as u128)
                };
                n as f64 * (size as f64 / span as f64)
            })
            .collect();
        let (p, c) = gof(&obs, &expect);
        worst = worst.min(p);
        cells += c;
        if p < ALPHA {
            return Err(format!("{n} draws from {min}..={max} are not even (p = {p:e}): counts {:?}", clip(&format!("{obs:?}"), 400)));
        }
        if span <= 64 && n as f64 / span as f64 > 60.0 {
            if let Some(i) = obs.iter().position(|o| *o == 0) {
                return Err(format!("{n} draws from {min}..={max} never gave {}", min + i as i64));
            }
        }
    }
    // draws from many values repeat each other no more than chance allows
    if span > n as u128 {
        let mut v = v.clone();
        v.sort_unstable();
        let (mut pairs, mut run) = (0u64, 0u64);
        for w in v.windows(2) {
            run = if w[0] == w[1] { run + 1 } else { 0 };
            pairs += run;
        }
        let mean = n as f64 * (n as f64 - 1.0) / 2.0 / span as f64;
        if poisson_upper(mean, pairs) < ALPHA {
            return Err(format!("{n} draws from {min}..={max} hold {pairs} equal pairs where {mean:.3e} are to be expected"));
        }
    }
    // successive draws are independent: pairs of halves
    if span >= 2 && n >= 4000 {
        let mid = (i128::from(min) + (span / 2) as i128) as i64;
        let mut obs = [0u64; 4];
        let ph = (i128::from(max) - i128::from(mid) + 1) as f64 / span as f64;
        for w in v.chunks_exact(2) {
            obs[usize::from(w[0] >= mid) * 2 + usize::from(w[1] >= mid)] += 1;
        }
        let m = (n / 2) as f64;
        let e = [m * (1.0 - ph) * (1.0 - ph), m * (1.0 - ph) * ph, m * ph * (1.0 - ph), m * ph * ph];
        let (p, _) = gof(&obs, &e);
        if p < ALPHA {
            return Err(format!("successive draws from {min}..={max} depend on each other (p = {p:e}): {obs:?}"));
        }
    }
    Ok((worst, cells))
}
/// the chance that a Poisson count of this mean is at least `k`
fn poisson_upper(mean: f64, k: u64) -> f64 {
    if mean > 200.0 {
        let z = (k as f64 - mean) / mean.sqrt();
        return if z > 8.0 { 1e-15 } else { 1.0 };
    }
    let (mut term, mut below) = ((-mean).exp(), 0.0);
    for i in 0..k {
        below += term;
        term *= mean / (i + 1) as f64;
    }
    // the tail itself where it is small: its terms fall at least geometrically
    if k as f64 > mean + 1.0 { term / (1.0 - mean / (k as f64 + 1.0)) } else { 1.0 - below }
}
/// every value of min..min+width-1 occurs, each as often as the others
pub fn cover_case(min: i64, width: usize) -> Result<f64, String> {
    let (max, per) = (min + (width as i64 - 1), 45usize);
    let n = per * width;
    let mut obs = vec![0u32; width];
    for _ in 0..n {
        let x = q::__quantum__qis__drawrandomint__body(min, max);
        if x < min || x > max {
            return Err(format!("a draw from {min}..={max} gave {x}"));
        }
        obs[(x - min) as usize] += 1;
    }
    // exp(-45) * width is below 1e-13
    if let Some(i) = obs.iter().position(|o| *o == 0) {
        return Err(format!("{n} draws from {min}..={max} never gave {}", min + i as i64));
    }
    if let Some(i) = obs.iter().position(|o| poisson_upper(per as f64, u64::from(*o)) < ALPHA / 1e3 / width as f64) {
        return Err(format!("{n} draws from {min}..={max} gave {} {} times", min + i as i64, obs[i]));
    }
    let chi: f64 = obs.iter().map(|o| (f64::from(*o) - per as f64).powi(2) / per as f64).sum();
    let z = (chi - (width - 1) as f64) / (2.0 * (width - 1) as f64).sqrt();
    if z.abs() > 9.0 {
        return Err(format!("{n} draws from {min}..={max} are not even over single values: z = {z}"));
    }
    Ok(z)
}
/// fresh threads do not repeat each other's draws
pub fn fresh_case(threads: usize) -> Option<String> {
    fn draw() -> Vec<u64> {
        (0..4)
            .map(|i| match i % 2 {
                0 => q::__quantum__qis__drawrandomint__body(i64::MIN, i64::MAX) as u64,
                _ => q::__quantum__qis__drawrandomdouble__body(1.0, 2.0).to_bits() << 12 | i,
            })
            .collect()
    }
    let mut all: Vec<Vec<u64>> = (0..threads).map(|_| std::thread::spawn(draw).join().unwrap()).collect();
    for _ in 0..threads / 16 {
        let o = Command::new(std::env::current_exe().unwrap()).arg("draw-child").stdin(Stdio::null()).output().unwrap();
        let v: Vec<u64> = String::from_utf8_lossy(&o.stdout).split_whitespace().filter_map(|x| x.parse().ok()).collect();
        if v.len() != 4 {
            return Some(format!("a process that draws did not end well: {}", clip(&String::from_utf8_lossy(&o.stderr), 300)));
        }
        all.push(v);
    }
    for i in 0..4 {
        let mut v: Vec<u64> = all.iter().map(|x| x[i]).collect();
        v.sort_unstable();
        if let Some(w) = v.windows(2).find(|w| w[0] == w[1]) {
            return Some(format!("draw number {i} is the same 52 or more bits ({:#x}) in two of {} fresh threads and processes", w[0], all.len()));
        }
    }
    None
}
pub fn draw_child() {
    let a = [
        q::__quantum__qis__drawrandomint__body(i64::MIN, i64::MAX) as u64,
        q::__quantum__qis__drawrandomdouble__body(1.0, 2.0).to_bits() << 12 | 1,
        q::__quantum__qis__drawrandomint__body(i64::MIN, i64::MAX) as u64,
        q::__quantum__qis__drawrandomdouble__body(1.0, 2.0).to_bits() << 12 | 3,
    ];
    println!("{}", a.map(|x| x.to_string()).join(" "));
}
pub fn double_case(min: f64, max: f64, n: usize) -> Result<f64, String> {
    let k = 64usize;
    let mut obs = vec![0u64; k];
    // a range of few doubles cannot be split into equal classes
    let wide = (max - min) > 1e6 * f64::EPSILON * max.abs().max(min.abs());
    let mut prev = -1i64;
    let mut pairs = [0u64; 4];
    // a range of very many doubles: nearly all draws differ
    let fine = max / 2.0 - min / 2.0 > 0.005 * max.abs().max(min.abs()) && max - min > 1e-280;
    let mut seen = vec![];
    for _ in 0..n {
        let x = q::__quantum__qis__drawrandomdouble__body(min, max);
        if !(x >= min && x <= max) {
            return Err(format!("a draw from {min:e}..={max:e} gave {x:e}"));
        }
        if fine && seen.len() < 20_000 {
            seen.push(x.to_bits());
        }
        if wide {
            let f = (x / 2.0 - min / 2.0) / (max / 2.0 - min / 2.0);
            obs[((f * k as f64) as usize).min(k - 1)] += 1;
            let h = i64::from(f >= 0.5);
            if prev >= 0 {
                pairs[(prev * 2 + h) as usize] += 1;
                prev = -1;
            } else {
                prev = h;
            }
        }
    }
    let drawn = seen.len();
    seen.sort_unstable();
    seen.dedup();
    if drawn - seen.len() > 3 {
        return Err(format!("{drawn} draws from {min:e}..={max:e} gave only {} different doubles", seen.len()));
    }
    if !wide {
        return Ok(1.0);
    }
    let (p, _) = gof(&obs, &vec![n as f64 / k as f64; k]);
    if p < ALPHA {
        return Err(format!("{n} draws from {min:e}..={max:e} are not even (p = {p:e}): {obs:?}"));
    }
    let m = pairs.iter().sum::<u64>() as f64;
    let (p2, _) = gof(&pairs, &[m / 4.0; 4]);
    if p2 < ALPHA {
        return Err(format!("successive draws from {min:e}..={max:e} depend on each other (p = {p2:e}): {pairs:?}"));
    }
    Ok(p)
}
pub fn c23(cx: &mut Ctx) {
    let mut r = cx.rng(1);
    let n = if cx.thorough { 4_000_000 } else { 800_000 };
    let rounds = cx.cases(800);
    for i in 0..rounds {
        if cx.time_up() {
            break;
        }
        let big = i < 2;
        if i % 2 == 0 {
            let (a, b) = match (i / 2 + cx.shard) % 14 {
                0 => (i64::MIN, i64::MAX),
                1 => (0, r.range(0, 9)),
                2 => {
                    let a = edge(&mut r);
                    (a, a)
                }
                3 => {
                    let a = -r.range(1, 1000);
                    (a, a + r.range(0, 40).min(-a - 1))
                }
                4 => (i64::MIN, i64::MIN + r.range(0, 63)),
                5 => (i64::MAX - r.range(0, 63), i64::MAX),
                6 => (-r.range(0, 20), r.range(0, 20)),
                7 => {
                    let (a, b) = (r.u64() as i64, r.u64() as i64);
                    (a.min(b), a.max(b))
                }
                8 => (0, (1 << r.range(1, 62)) - 1 + r.range(0, 1)),
                9 => (i64::MIN, r.u64() as i64 >> 1),
                10 => (-(1 << 53) - r.range(0, 3), (1 << 53) + r.range(0, 3)),
                11 | 12 => {
                    // two thirds of a power of two, where a coarser source of randomness would show
                    let k = if r.chance(0.3) { r.range(8, 63) } else { *r.pick(&[16, 24, 31, 32, 48, 53, 63]) };
                    let w = ((1u128 << k) / 3 * 2) as i64;
                    let a = if r.bool() { 0 } else { -(r.u64() as i64 & (i64::MAX >> 1)) };
                    (a, a + w)
                }
                _ => {
                    // a third of the 64-bit range, where reduction by remainder would show
                    let s = (u64::MAX / 3 * 2) as i128;
                    (i64::MIN, (i128::from(i64::MIN) + s) as i64)
                }
            };
            let m = if big { n } else { n / 8 };
            let body = format!("int {a} {b} {m}\n");
            cx.journal("draw", &body);
            match int_case(a, b, m) {
                Ok((p, cells)) => {
                    cx.n("integers_drawn", m as u64);
                    cx.n("classes_judged", cells as u64);
                    cx.max("smallest_minus_log10_p", -p.max(1e-300).log10());
                }
                Err(e) => {
                    cx.violation("draw", &body, &e);
                    return;
                }
            }
            cx.seen_text(&body);
            if cx.samples.len() < 5 {
                cx.sample(body.trim());
            }
        } else {
            let (a, b) = match (i / 2 + cx.shard) % 9 {
                0 => (0.0, 1.0),
                1 => {
                    let a = r.gauss() * 10f64.powi(r.range(-300, 300) as i32);
                    (a, a)
                }
                2 => {
                    let s = 10f64.powi(r.range(-290, 290) as i32);
                    let (a, b) = (r.gauss() * s, r.gauss() * s);
                    (a.min(b), a.max(b))
                }
                3 => (-1.0 - r.f64(), -r.f64()),
                4 => (-0.0, 0.0),
                5 => (1.0, 1.0 + f64::EPSILON * r.range(1, 4) as f64),
                6 => (f64::MIN, f64::MAX),
                7 => (-f64::MAX * r.f64(), f64::MAX * r.f64()),
                _ => (r.range(-100, 0) as f64, r.range(1, 100) as f64),
            };
            let m = if big { n } else { n / 8 };
            let body = format!("double {} {} {m}\n", a.to_bits(), b.to_bits());
            cx.journal("draw", &body);
            match double_case(a, b, m) {
                Ok(p) => {
                    cx.n("doubles_drawn", m as u64);
                    cx.max("smallest_minus_log10_p", -p.max(1e-300).log10());
                }
                Err(e) => {
                    cx.violation("draw", &body, &e);
                    return;
                }
            }
            cx.seen_text(&body);
        }
    }
    // every single value of ranges of up to a hundred thousand
    for i in 0..cx.cases(120) {
        if cx.time_up() {
            break;
        }
        let w = if i == 0 { 70_000 + r.below(60_000) } else { 65 + (20_000f64.powf(r.f64())) as usize };
        let a = match r.below(4) {
            0 => 0,
            1 => i64::MIN,
            2 => i64::MAX - w as i64 + 1,
            _ => -r.range(0, w as i64),
        };
        let body = format!("cover {a} {w}\n");
        cx.journal("draw", &body);
        match cover_case(a, w) {
            Ok(z) => {
                cx.n("integers_drawn", 45 * w as u64);
                cx.n("values_covered", w as u64);
                cx.max("largest_z_over_single_values", z);
            }
            Err(e) => {
                cx.violation("draw", &body, &e);
                return;
            }
        }
        cx.seen_text(&body);
    }
    let body = "fresh 64\n";
    cx.journal("draw", body);
    if let Some(e) = fresh_case(64) {
        cx.violation("draw", body, &e);
        return;
    }
    cx.n("fresh_generators_compared", 68);
    cx.journal_clear();
    children(cx, 12, |r| {
        if r.bool() {
            let (a, b) = (r.u64() as i64, r.u64() as i64);
            match r.below(4) {
                0 => format!("drawint {} {}", i64::MAX, i64::MIN),
                1 => format!("drawint 1 {}", -r.range(0, 9)),
                2 => format!("drawint {0} {1}", b, b.wrapping_sub(1).min(b)).replace(&i64::MIN.to_string(), "3"),
                _ if a == b => "drawint 0 -1".into(),
                _ => format!("drawint {} {}", a.max(b), a.min(b)),
            }
        } else {
            let a = r.gauss();
            format!("drawdouble {:?} {:?}", a, a - r.f64() - 1e-9)
        }
    });
}
fn edge(r: &mut Rng) -> i64 {
    match r.below(3) {
        0 => *r.pick(&[i64::MIN, i64::MAX, 0, -1, 1]),
        1 => r.u64() as i64,
        _ => r.range(-100, 100),
    }
}

// ---- mathematics: log for the offline checker ----------------------------------------------------

pub const UNARY: [(&str, extern "C" fn(f64) -> f64); 11] = [
    ("sin", q::__quantum__qis__sin__body),
    ("cos", q::__quantum__qis__cos__body),
    ("tan", q::__quantum__qis__tan__body),
    ("sinh", q::__quantum__qis__sinh__body),
    ("cosh", q::__quantum__qis__cosh__body),
    ("tanh", q::__quantum__qis__tanh__body),
    ("arcsin", q::__quantum__qis__arcsin__body),
    ("arccos", q::__quantum__qis__arccos__body),
    ("arctan", q::__quantum__qis__arctan__body),
    ("sqrt", q::__quantum__qis__sqrt__body),
    ("log", q::__quantum__qis__log__body),
];
fn math_arg(r: &mut Rng) -> f64 {
    match r.below(12) {
        0 => *r.pick(&[
            0.0, -0.0, 1.0, -1.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -f64::NAN, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, -5e-324, 0.5, 2.0,
            1.0 + f64::EPSILON, 1.0 - f64::EPSILON / 2.0, -1.0 - f64::EPSILON, 710.0, 709.8, -745.2, 22.0, 19.1,
        ]),
        1 => f64::from_bits(r.u64()),
        2 => r.range(-200, 200) as f64 * std::f64::consts::FRAC_PI_4,
        3 => (r.f64() - 0.5) * 2.0,
        4 => 1.0 + r.gauss() * 10f64.powi(-(r.below(17) as i32)),
        5 => r.gauss() * 10f64.powi(r.range(-20, 20) as i32),
        6 => r.gauss() * 10f64.powi(-(r.below(12) as i32)),
        7 => (r.f64() - 0.5) * 1500.0,
        8 => (r.f64() - 0.5) * 50.0,
        9 => f64::from_bits((1.0f64).to_bits().wrapping_add(r.range(-40, 40) as u64)) * if r.bool() { 1.0 } else { -1.0 },
        10 => 2f64.powi(r.range(-1074, 1023) as i32),
        _ => r.gauss(),
    }
}
fn rem_args(r: &mut Rng) -> (f64, f64) {
    match r.below(8) {
        0 => (math_arg(r), math_arg(r)),
        1 => (f64::from_bits(r.u64()), f64::from_bits(r.u64())),
        2 => (r.range(-60, 60) as f64, r.range(-12, 12) as f64),
        3 => {
            // near and at halfway points
            let g = r.gauss();
            let y = *r.pick(&[1.0, 2.0, 3.0, 0.1, 5e-324, 1e-310, f64::MAX, 1e308, 7.0, f64::MIN_POSITIVE, g]);
            let x = y * (r.range(-9, 9) as f64 + 0.5);
            (f64::from_bits(x.to_bits().wrapping_add(r.range(-1, 1) as u64)), y)
        }
        4 => (r.range(-4000, 4000) as f64 / 4.0, r.range(1, 40) as f64 / 8.0),
        5 => {
            let y = math_arg(r);
            (y * r.range(-100, 100) as f64, y)
        }
        6 => (f64::from_bits(r.below(200) as u64), f64::from_bits(1 + r.below(40) as u64)),
        _ => (r.gauss() * 10f64.powi(r.range(-300, 300) as i32), r.gauss() * 10f64.powi(r.range(-300, 300) as i32)),
    }
}
/// evaluates the intrinsics and prints name, argument and result bits for the offline checker
pub fn math_log(seed: u64, n: usize) {
    use std::io::Write;
    let mut r = Rng::derive(seed, 22);
    let o = std::io::stdout();
    let mut w = std::io::BufWriter::new(o.lock());
    let mut emit = |name: &str, x: f64, y: f64, v: u64| writeln!(w, "{name} {:016x} {:016x} {v:016x}", x.to_bits(), y.to_bits()).unwrap();
    emit("nan", 0.0, 0.0, q::__quantum__qis__nan__body().to_bits());
    emit("infinity", 0.0, 0.0, q::__quantum__qis__infinity__body().to_bits());
    for i in 0..n {
        let x = math_arg(&mut r);
        let (name, f) = UNARY[i % UNARY.len()];
        // domains of the inverse functions are small: half of the arguments inside
        let x = if (name == "arcsin" || name == "arccos") && r.bool() { x.rem_euclid(2.0) - 1.0 } else { x };
        emit(name, x, 0.0, f(x).to_bits());
        let (y, z) = (math_arg(&mut r), math_arg(&mut r));
        let (y, z) = if r.chance(0.3) { (y, y * r.gauss()) } else { (y, z) };
        if i % 4 == 0 {
            emit("arctan2", y, z, q::__quantum__qis__arctan2__body(y, z).to_bits());
        }
        let (a, b) = rem_args(&mut r);
        emit("ieeeremainder", a, b, q::__quantum__qis__ieeeremainder__body(a, b).to_bits());
        if i % 4 == 1 {
            emit("isnan", y, 0.0, u64::from(q::__quantum__qis__isnan__body(y)));
            emit("isinf", y, 0.0, u64::from(q::__quantum__qis__isinf__body(y)));
            emit("isnegativeinfinity", y, 0.0, u64::from(q::__quantum__qis__isnegativeinfinity__body(y)));
        }
    }
}
/// one evaluation, for replays
pub fn math_eval(name: &str, x: f64, y: f64) -> u64 {
    match name {
        "arctan2" => q::__quantum__qis__arctan2__body(x, y).to_bits(),
        "ieeeremainder" => q::__quantum__qis__ieeeremainder__body(x, y).to_bits(),
        "isnan" => u64::from(q::__quantum__qis__isnan__body(x)),
        "isinf" => u64::from(q::__quantum__qis__isinf__body(x)),
        "isnegativeinfinity" => u64::from(q::__quantum__qis__isnegativeinfinity__body(x)),
        "nan" => q::__quantum__qis__nan__body().to_bits(),
        "infinity" => q::__quantum__qis__infinity__body().to_bits(),
        n => UNARY.iter().find(|u| u.0 == n).unwrap().1(x).to_bits(),
    }
}

/// replays of the kinds defined here
pub fn replay(kind: &str, body: &str, work: &Path) -> Option<Option<String>> {
    let f: Vec<&str> = body.split_whitespace().collect();
    Some(match kind {
        "std" => stdcases::run(f[0], f[1].parse().unwrap(), f[2].parse().unwrap(), &mut Log::default()),
        "balance" => stdcases::repeat_balance(f[0], f[1].parse().unwrap(), f[2].parse().unwrap()),
        "direct" => stdcases::output_parent(f[0].parse().unwrap(), f[1].parse().unwrap(), &work.join(format!("out.replay.{}", std::process::id()))),
        "fatal" => child_dies(&work.join(format!("fatal.replay.{}", std::process::id())), body),
        "draw" if f[0] == "int" => int_case(f[1].parse().unwrap(), f[2].parse().unwrap(), f[3].parse().unwrap()).err(),
        "draw" if f[0] == "cover" => cover_case(f[1].parse().unwrap(), f[2].parse().unwrap()).err(),
        "draw" if f[0] == "fresh" => fresh_case(f[1].parse().unwrap()),
        "draw" => double_case(f64::from_bits(f[1].parse().unwrap()), f64::from_bits(f[2].parse().unwrap()), f[3].parse().unwrap()).err(),
        _ => return None,
    })
}

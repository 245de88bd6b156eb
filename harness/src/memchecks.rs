//! Memory of the running system (C28): nothing accumulates over shots, pending gates or draws, the memory of a state follows
//! its number of non-zero amplitudes, and raw blocks handed to programs are fresh, separate and lasting.
use crate::alloc::{live, peak, reset_peak};
use crate::ctx::{Ctx, catch};
use crate::prog::{Op, lowest_free, to_text};
use crate::rng::Rng;
use crate::simchecks::{Kind, case_body, random_program, sanitize};
use crate::simchecks2::make;
use crate::targets::{QirTarget, take_output};
use qir_backend as q;
use quantum_sparse_sim::QuantumSim;
use std::collections::BTreeSet;

/// blocks that belong to the program for good
static KEPT: std::sync::Mutex<Vec<(usize, usize)>> = std::sync::Mutex::new(Vec::new());

/// memory left behind after each repetition must not keep growing
fn grows(at: &[(usize, i64)], least: i64) -> bool {
    at.windows(2).all(|w| w[1].1 - w[0].1 >= least * (w[1].0 - w[0].0) as i64)
}

/// Repeats a program; `init` ends each repetition by re-initialising the runtime, otherwise by releasing everything.
pub fn repeat_case(kind: Kind, seed: u64, reps: usize, init: bool, p: &[Op]) -> Option<String> {
    // what is left to release at the end
    let mut singles: BTreeSet<usize> = BTreeSet::new();
    let mut live_ids: BTreeSet<usize> = BTreeSet::new();
    let mut arrays: Vec<Option<Vec<usize>>> = vec![];
    for o in p {
        match o {
            Op::Alloc => {
                let k = lowest_free(&live_ids);
                live_ids.insert(k);
                singles.insert(k);
            }
            Op::AllocN(n) => {
                let v: Vec<usize> = (0..*n)
                    .map(|_| {
                        let k = lowest_free(&live_ids);
                        live_ids.insert(k);
                        k
                    })
                    .collect();
                if kind == Kind::Sim {
                    singles.extend(&v);
                } else {
                    arrays.push(Some(v));
                }
            }
            Op::Release(k) => {
                live_ids.remove(k);
                singles.remove(k);
            }
            Op::ReleaseN(i) => {
                for k in arrays.get_mut(*i)?.take()? {
                    live_ids.remove(&k);
                }
            }
            _ => {}
        }
    }
    let pending: Vec<usize> = arrays.iter().enumerate().filter(|(_, a)| a.is_some()).map(|(i, _)| i).collect();
    let marks: Vec<usize> = vec![reps / 8, reps / 4, reps / 2, reps];
    let res = catch(|| {
        let mut at: Vec<(usize, i64, i64)> = Vec::with_capacity(8);
        let mut sim = make(kind, seed);
        for i in 1..=reps {
            if kind == Kind::Sim {
                for o in p {
                    drop(sim.exec(o, 0.0));
                }
                for k in &singles {
                    sim.exec(&Op::Release(*k), 0.0);
                }
            } else {
                let mut t: Box<dyn crate::lockstep::Target> = Box::new(QirTarget::resume(kind == Kind::QirStat));
                for o in p {
                    drop(t.exec(o, 0.0));
                }
                for k in &pending {
                    t.exec(&Op::ReleaseN(*k), 0.0);
                }
                if init {
                    t.exec(&Op::Init, 0.0);
                } else {
                    for k in &singles {
                        t.exec(&Op::Release(*k), 0.0);
                    }
                }
                drop(take_output());
            }
            if marks.contains(&i) {
                at.push((i, live().bytes, live().blocks));
            }
        }
        at
    });
    let at = match res {
        Ok(a) => a,
        Err(e) => return Some(format!("the code under test panicked: {e}")),
    };
    let bytes: Vec<i64> = at.iter().map(|a| a.1).collect();
    // what a repetition needs at most is found soon; growth in each of three successive doublings is accumulation
    if bytes.windows(2).all(|w| w[1] - w[0] >= 8) {
        return Some(format!("repeating the program keeps adding memory: live bytes after {marks:?} repetitions: {bytes:?}, live blocks {:?}", at.iter().map(|a| a.2).collect::<Vec<_>>()));
    }
    None
}

const PENDING_KINDS: u64 = 20;
const CONTROLLED_ONLY: u64 = PENDING_KINDS;
const UNCONTROLLED_ONLY: u64 = PENDING_KINDS + 1;

/// Gates that may be deferred, applied for a long time without an observation in between.
pub fn pending_case(seed: u64, n: usize) -> Option<String> {
    let mut r = Rng::new(seed);
    let res = catch(|| {
        let mut s = QuantumSim::new(None);
        s.set_rng_seed(seed);
        let nq = 2 + r.below(3);
        for _ in 0..nq {
            s.allocate();
        }
        let hs = r.bool();
        if hs {
            for k in 0..nq {
                if r.bool() {
                    s.h(k);
                }
            }
        }
        // each kind alone, kinds with and without controls, and mixtures
        let which: Vec<usize> = match seed {
            0..PENDING_KINDS => vec![seed as usize],
            CONTROLLED_ONLY => vec![2, 3, 7, 9, 12, 13, 14, 15],
            UNCONTROLLED_ONLY => vec![0, 1, 4, 5, 6, 8, 16, 17],
            _ => (0..PENDING_KINDS as usize).filter(|_| r.chance(0.4)).collect(),
        };
        let which = if which.is_empty() { vec![r.below(12)] } else { which };
        let mut at = vec![];
        for i in 1..=n {
            let a = r.below(nq);
            let b = (a + 1 + r.below(nq - 1)) % nq;
            match *r.pick(&which) {
                0 => s.x(a),
                1 => s.z(a),
                2 => s.mcx(&[b], a),
                3 => s.mcz(&[b], a),
                4 => s.t(a),
                5 => s.sadj(a),
                6 => s.y(a),
                7 => s.mcy(&[b], a),
                8 => s.rz(0.1, a),
                9 => s.mcrz(&[b], 0.3, a),
                10 => s.swap_qubit_ids(a, b),
                11 => s.rx(0.2, a),
                12 => s.mcs(&[b], a),
                13 => s.mcsadj(&[b], a),
                14 => s.mct(&[b], a),
                15 => s.mctadj(&[b], a),
                16 => s.s(a),
                17 => s.tadj(a),
                18 => s.ry(0.2, a),
                _ => s.h(a),
            }
            if [n / 8, n / 4, n / 2, n].contains(&i) {
                at.push((i, live().bytes));
            }
        }
        (at, which)
    });
    match res {
        Err(e) => Some(format!("the code under test panicked: {e}")),
        Ok((at, which)) if grows(&at, 4) => Some(format!("unobserved gates {which:?} keep adding memory: live bytes after so many gates {at:?}")),
        Ok(_) => None,
    }
}

/// Blocks of gates each undone again on many qubits: the support stays small, and so must the memory.
pub fn support_case(seed: u64) -> Result<(u64, f64), String> {
    let mut r = Rng::new(seed);
    let n = *r.pick(&[3usize, 10, 40, 63, 64, 65, 150, 400]);
    let branches = r.below(4); // 2^branches amplitudes outside of blocks
    let blocks = 4 + r.below(if n > 100 { 12 } else { 40 });
    let observe = r.bool();
    let start = live().bytes;
    reset_peak();
    let run = catch(|| {
        let mut s = QuantumSim::new(None);
        s.set_rng_seed(seed);
        for _ in 0..n {
            s.allocate();
        }
        // a superposition of 2^branches basis states spread over all qubits
        for b in 0..branches.min(n) {
            s.h(b);
        }
        let b0 = branches.min(n);
        for k in b0..n {
            match r.below(3) {
                0 if b0 > 0 => s.mcx(&[r.below(b0)], k),
                1 => s.x(k),
                _ => {}
            }
        }
        let (before, _) = s.get_state();
        let mut most = before.len();
        for _ in 0..blocks {
            let w = 1 + r.below(3);
            let mut qs: Vec<usize> = (0..w).map(|_| r.below(n)).collect();
            qs.sort_unstable();
            qs.dedup();
            let w = qs.len();
            most = most.max(before.len() << w);
            let mut ops = vec![];
            for _ in 0..1 + r.below(5) {
                let a = r.below(w);
                let b = if w > 1 { Some((a + 1 + r.below(w - 1)) % w) } else { None };
                ops.push((r.below(7), qs[a], b.map(|b| qs[b]), r.f64() * 6.0));
            }
            let go = |s: &mut QuantumSim, o: &(usize, usize, Option<usize>, f64), inv: bool| {
                let th = if inv { -o.3 } else { o.3 };
                match (o.0, o.2) {
                    (0, _) => s.h(o.1),
                    (1, Some(c)) => s.mch(&[c], o.1),
                    (2, Some(c)) => s.mcx(&[c], o.1),
                    (3, Some(c)) => s.mcry(&[c], th, o.1),
                    (4, _) => s.ry(th, o.1),
                    (5, Some(c)) => s.mcexp(&[], &[quantum_sparse_sim::exp::Pauli::X, quantum_sparse_sim::exp::Pauli::Y], th, &[o.1, c]),
                    (_, _) => s.rx(th, o.1),
                }
            };
            for o in &ops {
                go(&mut s, o, false);
            }
            if observe {
                let _ = s.joint_probability(&[qs[0]]);
            }
            for o in ops.iter().rev() {
                go(&mut s, o, true);
            }
            // pending gates are applied when their qubit is looked at
            for q in &qs {
                let _ = s.qubit_is_zero(*q);
            }
        }
        let (after, _) = s.get_state();
        let (k0, k1) = (before.len(), after.len());
        (k0, k1, most)
    });
    let (k0, k1, most) = run.map_err(|e| format!("the code under test panicked: {e}"))?;
    if k0 != k1 {
        return Err(format!("gates undone again on {n} qubits leave {k1} amplitudes instead of {k0}"));
    }
    let used = (peak() - start) as f64;
    let unit = most as f64 * (64.0 + n as f64 / 8.0) + 256.0 * n as f64 + 4096.0;
    if used > 12.0 * unit {
        return Err(format!("a state of at most {most} amplitudes over {n} qubits took {used} bytes (expected in the order of {unit})"));
    }
    Ok((most as u64, used / unit))
}

/// Raw blocks: zeroed, separate, lasting.
pub fn raw_case(seed: u64, keep: &mut Vec<(usize, usize)>) -> Option<String> {
    let mut r = Rng::new(seed);
    let mut mine: Vec<(*mut u8, usize, u8)> = vec![];
    for i in 0..8 + r.below(40) {
        let n = match r.below(5) {
            0 => 0,
            1 => 1 + r.below(16),
            2 => 1 + r.below(300),
            3 => 8 * (1 + r.below(64)),
            _ => 1 + r.below(70_000),
        };
        let p = q::__quantum__rt__memory_allocate(n as u64);
        if p.is_null() {
            return Some(format!("a block of {n} bytes is null"));
        }
        keep.push((p as usize, n));
        let s = unsafe { std::slice::from_raw_parts_mut(p, n) };
        if let Some(k) = s.iter().position(|b| *b != 0) {
            return Some(format!("byte {k} of a fresh block of {n} bytes is {}", s[k]));
        }
        let b = 1 + (i % 250) as u8;
        s.fill(b);
        mine.push((p, n, b));
        // other objects come and go
        let a = q::__quantum__rt__array_create_1d(8, r.below(40) as u64);
        let t = q::__quantum__rt__tuple_create(r.below(90) as u64);
        unsafe {
            q::__quantum__rt__tuple_update_reference_count(t, -1);
            q::__quantum__rt__array_update_reference_count(a, -1);
        }
    }
    for (i, (p, n, b)) in mine.iter().enumerate() {
        let s = unsafe { std::slice::from_raw_parts(*p, *n) };
        if let Some(k) = s.iter().position(|x| x != b) {
            return Some(format!("byte {k} of block {i} ({n} bytes) changed from {b} to {} while the program held it", s[k]));
        }
    }
    None
}

pub fn c28(cx: &mut Ctx) {
    let mut r = cx.rng(1);
    let asan = cx.flavour != "normal";
    let mut keep = vec![];
    for _ in 0..cx.cases(400) {
        let s = r.u64();
        cx.journal("mem-raw", &format!("{s}\n"));
        if let Some(e) = raw_case(s, &mut keep) {
            cx.violation("mem-raw", &format!("{s}\n"), &e);
            break;
        }
        cx.n("raw_block_sets", 1);
    }
    // reachable for the leak checker: these blocks belong to the program for good
    KEPT.lock().unwrap().extend(keep);
    if asan {
        return;
    }
    let mut seeds: Vec<u64> = (0..PENDING_KINDS + 2).filter(|k| *k as usize % cx.shards == cx.shard).collect();
    seeds.extend((0..cx.cases(24)).map(|_| 100 + r.u64() / 2));
    for s in seeds {
        let n = 60_000;
        let body = format!("{s} {n}\n");
        cx.journal("mem-pending", &body);
        if let Some(e) = pending_case(s, n) {
            cx.violation("mem-pending", &body, &e);
        }
        cx.n("long_pending_sequences", 1);
        cx.n("gates_pending", n as u64);
    }
    for _ in 0..cx.cases(1_600) {
        if cx.time_up() {
            break;
        }
        let s = r.u64();
        let body = format!("{s}\n");
        cx.journal("mem-support", &body);
        match support_case(s) {
            Ok((k, x)) => {
                cx.max("most_amplitudes", k as f64);
                cx.max("memory_relative_to_support", x);
            }
            Err(e) => cx.violation("mem-support", &body, &e),
        }
        cx.n("support_programs", 1);
    }
    let kinds = [Kind::Sim, Kind::QirDyn, Kind::QirStat];
    for i in 0..cx.cases(480) {
        if cx.time_up() {
            break;
        }
        let kind = kinds[i % 3];
        let p = random_program(&mut r, kind, 3, (4, 30));
        let (seed, reps) = (r.u64() >> 1, 2_000);
        let init = kind == Kind::QirStat || r.bool();
        let body = format!("#init {}\n#reps {reps}\n{}", u8::from(init), case_body(seed, &p));
        let k = format!("mem-repeat-{}", kind.name());
        cx.journal(&k, &body);
        if let Some(e) = repeat_case(kind, seed, reps, init, &p) {
            let small = crate::ctx::ddmin(&p, std::time::Duration::from_secs(15), |c| repeat_case(kind, seed, reps, init, &sanitize(kind, c)).is_some_and(|e| e.contains("keeps adding")));
            let small = sanitize(kind, &small);
            let e2 = repeat_case(kind, seed, reps, init, &small).unwrap_or(e);
            cx.violation(&k, &format!("#init {}\n#reps {reps}\n{}", u8::from(init), case_body(seed, &small)), &format!("{e2} [{}]", crate::ctx::clip(&to_text(&small).replace('\n', "; "), 800)));
        }
        cx.n("programs_repeated", 1);
        cx.n("repetitions", reps as u64);
        cx.seen_text(&format!("{}{init}{}", kind.name(), to_text(&p)));
        if cx.samples.len() < 3 && p.len() < 40 {
            cx.sample(format!("[{k}] {}", to_text(&p).replace('\n', "; ")));
        }
    }
    cx.journal_clear();
}

pub fn replay(kind: &str, hdr: &std::collections::BTreeMap<String, String>, body: &str) -> Option<Option<String>> {
    let v: Vec<u64> = body.split_whitespace().filter_map(|x| x.parse().ok()).collect();
    let h = |k: &str| hdr.get(k).and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(0);
    match kind {
        "mem-raw" => Some(raw_case(v[0], &mut vec![])),
        "mem-pending" => Some(pending_case(v[0], v[1] as usize)),
        "mem-support" => Some(support_case(v[0]).err()),
        k => {
            let k = Kind::parse(k.strip_prefix("mem-repeat-")?)?;
            Some(repeat_case(k, h("seed"), h("reps") as usize, h("init") == 1, &crate::prog::from_text(body)))
        }
    }
}

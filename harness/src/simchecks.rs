//! Checks C01-C03, C06-C13: programs judged by the lock-step monitor.
use crate::ctx::{Ctx, catch, clip, ddmin};
use crate::generate::{Profile, generate};
use crate::lockstep::*;
use crate::prog::*;
use crate::rng::Rng;
use crate::targets::*;
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Sim,
    QirDyn,
    QirStat,
}
impl Kind {
    pub fn name(self) -> &'static str {
        match self {
            Kind::Sim => "sim",
            Kind::QirDyn => "qirdyn",
            Kind::QirStat => "qirstat",
        }
    }
    pub fn parse(s: &str) -> Option<Kind> {
        Some(match s {
            "sim" => Kind::Sim,
            "qirdyn" => Kind::QirDyn,
            "qirstat" => Kind::QirStat,
            _ => return None,
        })
    }
}

/// Executes a program on a fresh target of the given kind in lock step with the reference.
pub fn execute(kind: Kind, seed: u64, p: &[Op], o: Opts) -> Outcome {
    let fail = |e: String| Outcome {
        violation: Some((0, format!("the code under test panicked: {e}"))),
        obs: vec![],
        stats: Stats::default(),
        final_hyps: vec![],
        executed: 0,
    };
    match kind {
        Kind::Sim => catch(|| {
            let mut t = SimTarget::seeded(seed);
            run(&mut t, p, o)
        })
        .unwrap_or_else(fail),
        _ => catch(|| {
            let mut t = QirTarget::start(seed, kind == Kind::QirStat);
            run(&mut t, p, o)
        })
        .unwrap_or_else(fail),
    }
}

pub fn sanitize(kind: Kind, p: &[Op]) -> Vec<Op> {
    if kind == Kind::QirStat { p.to_vec() } else { sanitize_dynamic(p) }
}

pub fn case_body(seed: u64, p: &[Op]) -> String {
    format!("#seed {seed}\n{}", to_text(p))
}

pub fn account(cx: &mut Ctx, s: &Stats) {
    cx.n("ops_executed", s.ops);
    cx.n("state_comparisons", s.state_checks);
    cx.n("outcomes_judged", s.outcome_checks);
    cx.n("outcomes_random", s.random_outcomes);
    cx.n("probabilities_judged", s.prob_checks);
    cx.n("result_reads_judged", s.record_checks);
    cx.n("assertions_passed", s.assertions);
    cx.n("hidden_outcomes_resolved", s.branches_resolved);
    cx.n("inconclusive_stops", s.inconclusive);
    cx.max("max_state_entries", s.max_nnz as f64);
    cx.max("max_live_qubits", s.max_live as f64);
    cx.max("max_ops_between_observations", s.max_run_between_obs as f64);
    cx.max("max_amplitude_difference", s.worst_diff);
    for t in &s.triples {
        cx.seen(*t);
    }
}

pub fn report(cx: &mut Ctx, kind: Kind, seed: u64, p: &[Op], msg: &str, o: Opts) {
    let small = if p.len() > 3000 {
        p.to_vec()
    } else {
        ddmin(p, Duration::from_secs(20), |c| {
            let c = sanitize(kind, c);
            execute(kind, seed, &c, o).violation.is_some()
        })
    };
    let small = sanitize(kind, &small);
    let m = match execute(kind, seed, &small, o).violation {
        Some((i, e)) => format!("{e} [at op {i} of {}: {}]", small.len(), clip(&to_text(&small).replace('\n', "; "), 1500)),
        None => msg.to_string(),
    };
    cx.violation(kind.name(), &case_body(seed, &small), &m);
}

pub fn run_case(cx: &mut Ctx, kind: Kind, seed: u64, p: &[Op], o: Opts) {
    cx.journal(kind.name(), &case_body(seed, p));
    let out = execute(kind, seed, p, o);
    cx.n("programs", 1);
    account(cx, &out.stats);
    if let Some((i, e)) = out.violation {
        let upto = (i + 1).min(p.len());
        // the failing prefix is enough unless the failure was found only at the end
        let pre = execute(kind, seed, &p[..upto], o);
        let q = if pre.violation.is_some() { &p[..upto] } else { p };
        report(cx, kind, seed, q, &e, o);
    } else if cx.samples.len() < 4 && p.len() > 8 && p.len() < 60 {
        cx.sample(format!("[{}] {}", kind.name(), to_text(p).replace('\n', "; ")));
    }
}

/// A weighted list of workload profiles: (label, number of quick cases, kind, profile, options)
type Plan = Vec<(&'static str, usize, Kind, Profile, Opts)>;

/// The families advance together, so that a run cut short by its time limit has still seen all of them.
const SLICES: usize = 16;

fn run_plan(cx: &mut Ctx, plan: Plan) {
    let mut rs: Vec<_> = (0..plan.len()).map(|i| cx.rng(1 + i as u64)).collect();
    for slice in 0..SLICES {
        for (i, (label, total, kind, prof, o)) in plan.iter().enumerate() {
            let n = cx.cases(*total);
            for _ in n * slice / SLICES..n * (slice + 1) / SLICES {
                if cx.time_up() {
                    return;
                }
                let p = generate(&mut rs[i], prof);
                let seed = rs[i].u64();
                run_case(cx, *kind, seed, &p, *o);
                cx.n(&format!("programs_{label}"), 1);
            }
        }
    }
}

fn gates() -> Profile {
    Profile::default()
}
fn o() -> Opts {
    Opts::default()
}

pub fn c01(cx: &mut Ctx) {
    long_queues(cx);
    long_lists(cx, 1_000, &[Kind::Sim], false);
    // ids in unusual places first, then gates only
    let plan: Plan = vec![
        ("small", 60_000, Kind::Sim, Profile { max_q: 3, ops: (3, 30), ..gates() }, o()),
        ("one_qubit", 30_000, Kind::Sim, Profile { max_q: 1, ops: (2, 16), w_gc: 0.0, w_rotc: 0.0, w_swap: 0.0, w_rot: 8.0, w_h: 4.0, ..gates() }, o()),
        ("two_qubit_pending", 40_000, Kind::Sim, Profile { min_q: 2, max_q: 2, ops: (4, 24), w_rot: 7.0, w_rotc: 3.0, w_swap: 1.5, ..gates() }, o()),
        ("medium", 6_000, Kind::Sim, Profile { min_q: 4, max_q: 8, max_ctls: 6, ops: (20, 120), ..gates() }, o()),
        ("with_observers", 12_000, Kind::Sim, Profile { max_q: 5, ops: (10, 60), w_observe: 1.5, ..gates() }, o()),
        ("odd_ids", 12_000, Kind::Sim, Profile { max_q: 6, ops: (10, 60), w_alloc: 1.0, w_release: 1.2, w_observe: 0.5, ..gates() }, o()),
        ("with_measurement", 10_000, Kind::Sim, Profile { max_q: 5, ops: (10, 50), w_measure: 0.8, w_joint: 0.3, ..gates() }, o()),
        ("wide", 1_200, Kind::Sim, Profile { min_q: 2, max_q: 5, idle: 140, max_ctls: 6, ops: (20, 80), ..gates() }, Opts { nnz_cap: 600, ..o() }),
        ("exp", 8_000, Kind::Sim, Profile { min_q: 1, max_q: 6, ops: (3, 20), w_exp: 8.0, max_ctls: 4, ..gates() }, o()),
        ("large_states", 40, Kind::Sim, Profile { min_q: 10, max_q: 13, max_ctls: 8, ops: (30, 90), w_h: 14.0, w_apply: 0.3, w_joint: 0.05, ..gates() }, Opts { nnz_cap: 40_000, ..o() }),
        ("full_states", 30, Kind::Sim, Profile { spread: true, min_q: 11, max_q: 15, ops: (4, 14), w_h: 2.0, w_rot: 1.0, w_exp: 0.1, w_observe: 0.4, ..gates() }, Opts { nnz_cap: 40_000, ..o() }),
        ("huge_states", 8, Kind::Sim, Profile { spread: true, min_q: 16, max_q: 17, ops: (3, 7), w_h: 2.0, w_rot: 1.0, w_exp: 0.1, w_observe: 0.4, ..gates() }, Opts { nnz_cap: 300_000, ..o() }),
        ("long_bursts", 240, Kind::Sim, Profile { min_q: 2, max_q: 5, ops: (2, 4), w_burst: 40.0, burst: (400, 4_500), ..gates() }, Opts { nnz_cap: 200, ..o() }),
        ("bursts", 2_400, Kind::Sim, Profile { min_q: 2, max_q: 5, ops: (10, 40), w_burst: 3.0, burst: (50, 400), ..gates() }, Opts { nnz_cap: 200, ..o() }),
        // errors too small to see after one gate add up
        ("long_runs", 320, Kind::Sim, Profile { min_q: 1, max_q: 3, ops: (1_000, 4_000), tiny: false, ..gates() }, o()),
    ];
    crate::simchecks2::crowds(cx, &[Kind::Sim], 200);
    run_plan(cx, plan);
}

/// Programs whose control, parity and Pauli lists name tens to hundreds of qubits. Most of the register is in
/// basis states with nearly all bits one, so that the long control lists are satisfied; a few qubits branch.
pub fn long_list_program(r: &mut Rng, kind: Kind, measure: bool) -> Vec<Op> {
    use crate::refsim::P::*;
    let qir = kind != Kind::Sim;
    let w = match r.below(4) {
        0 => 6 + r.below(28),
        1 => 60 + r.below(10),
        2 => 124 + r.below(10),
        _ => 33 + r.below(220),
    };
    let mut p = vec![];
    if kind != Kind::QirStat {
        let mut left = w;
        while left > 0 {
            let n = if qir { 1 + r.below(left) } else { 1 };
            p.push(if n > 1 || (qir && r.bool()) { Op::AllocN(n) } else { Op::Alloc });
            left -= n;
        }
    }
    let mut ids: Vec<usize> = (0..w).collect();
    r.shuffle(&mut ids);
    let nb = 2 + r.below(3);
    let (branch, idle) = (ids[..nb].to_vec(), ids[nb..].to_vec());
    let zeros = r.below(3);
    for (i, q) in idle.iter().enumerate() {
        if i >= zeros {
            p.push(Op::Gate { g: G::X, ctls: vec![], t: *q, var: 0 });
        }
    }
    for q in &branch {
        p.push(if r.bool() { Op::Gate { g: G::H, ctls: vec![], t: *q, var: 0 } } else { Op::Rot { p: *r.pick(&[X, Y]), th: 0.4 + 2.0 * r.f64(), ctls: vec![], t: *q, var: 0 } });
    }
    let mut last = 0.7;
    for _ in 0..4 + r.below(14) {
        // a list of idle qubits that leaves out the zeros, one other, or nothing; with some branching ones
        let mut l: Vec<usize> = match r.below(6) {
            0 => idle.clone(),
            1 => idle[zeros.min(idle.len())..].to_vec(),
            2 => idle[(zeros + 1).min(idle.len())..].to_vec(),
            _ => {
                let from = zeros.min(idle.len());
                let n = r.below(idle.len() - from + 1);
                idle[from..from + n].to_vec()
            }
        };
        let k = r.below(nb + 1);
        l.extend_from_slice(&branch[..k]);
        r.shuffle(&mut l);
        let rest: Vec<usize> = ids.iter().copied().filter(|q| !l.contains(q)).collect();
        let var = r.below(4) as u8;
        let th = crate::generate::angle(r, &mut last, true);
        let th = if r.bool() { th } else { 0.3 + 2.0 * r.f64() };
        match r.below(if measure { 12 } else { 8 }) {
            0..=2 if !rest.is_empty() => p.push(Op::Gate { g: *r.pick(&[G::X, G::Y, G::Z, G::H, G::S, G::Sadj, G::T, G::Tadj]), ctls: l, t: *r.pick(&rest), var }),
            3 if !rest.is_empty() => p.push(Op::Rot { p: *r.pick(&[X, Y, Z]), th, ctls: l, t: *r.pick(&rest), var }),
            4 if !rest.is_empty() && !qir => p.push(Op::Phase { ctls: l, th, t: *r.pick(&rest) }),
            4 if !rest.is_empty() => p.push(Op::RP { p: *r.pick(&[I, X, Y, Z]), th, ctls: l, t: *r.pick(&rest), var }),
            5 => {
                // the Paulis on the long list, few controls, or the other way round
                let only = *r.pick(&[Z, Z, X, Y]);
                let ps: Vec<_> = l.iter().map(|q| (if r.chance(0.1) { *r.pick(&[I, X, Y, Z]) } else { only }, *q)).collect();
                let nc = r.below(3).min(rest.len());
                p.push(Op::Exp { ps, th, ctls: rest[..nc].to_vec(), var });
            }
            6 if !rest.is_empty() => p.push(Op::Exp { ps: vec![(*r.pick(&[X, Y, Z]), *r.pick(&rest))], th, ctls: l, var: var | 1 }),
            7 => {
                let q = *r.pick(&idle);
                p.push(Op::Gate { g: G::X, ctls: vec![], t: q, var: 0 });
            }
            8 if qir => p.push(Op::PM(l.iter().map(|q| (if branch.contains(q) { *r.pick(&[X, Y, Z]) } else { *r.pick(&[Z, Z, I]) }, *q)).collect())),
            8 => p.push(Op::JM(l)),
            9 if qir => {
                let ps = l.iter().map(|q| (if branch.contains(q) { *r.pick(&[X, Y, Z]) } else { *r.pick(&[Z, Z, I]) }, *q)).collect();
                let tol = *r.pick(&[1e-6, 1e-3, 0.01]);
                p.push(Op::AP(ps, r.bool(), *r.pick(&[0.0, 0.9, -0.9]) * tol, tol, var & 1 == 1));
            }
            9 => p.push(Op::JP(l)),
            10 => p.push(Op::M(*r.pick(&ids))),
            _ => p.push(if r.bool() { Op::GetState } else { Op::Dump }),
        }
    }
    p
}

pub fn long_lists(cx: &mut Ctx, total: usize, kinds: &[Kind], measure: bool) {
    let mut r = cx.rng(91);
    for _ in 0..cx.cases(total) {
        if cx.time_up() {
            break;
        }
        let kind = *r.pick(kinds);
        let p = long_list_program(&mut r, kind, measure);
        let seed = r.u64();
        let longest = p
            .iter()
            .map(|o| match o {
                Op::Gate { ctls, .. } | Op::Rot { ctls, .. } | Op::RP { ctls, .. } | Op::Phase { ctls, .. } => ctls.len(),
                Op::Exp { ps, ctls, .. } => ps.len().max(ctls.len()),
                Op::PM(ps) | Op::AP(ps, ..) => ps.len(),
                Op::JM(v) | Op::JP(v) => v.len(),
                _ => 0,
            })
            .max()
            .unwrap_or(0);
        cx.max("longest_qubit_list", longest as f64);
        run_case(cx, kind, seed, &p, Opts { nnz_cap: 600, ..o() });
        cx.n("programs_long_lists", 1);
    }
}

fn long_queues(cx: &mut Ctx) {
    // operation queues beyond their limit: more than 10 000 queueable operations with nothing in between
    let mut r = cx.rng(77);
    for _ in 0..cx.cases(40) {
        if cx.time_up() {
            break;
        }
        let pr = Profile {
            min_q: 2,
            max_q: 3,
            idle: 60,
            ops: (4, 10),
            w_burst: 0.0,
            ..gates()
        };
        let mut p = generate(&mut r, &pr);
        let b = Profile { min_q: 3, max_q: 3, ops: (1, 1), w_h: 0.0, w_g1: 0.0, w_gc: 0.0, w_rot: 0.0, w_rotc: 0.0, w_phase: 0.0, w_exp: 0.0, w_swap: 0.0, w_burst: 1.0, burst: (9_500, 21_000), ..gates() };
        let q = generate(&mut r, &b);
        let mut all = q[..3].to_vec();
        for t in 0..3 {
            all.push(Op::Gate { g: G::H, ctls: vec![], t, var: 0 });
            all.push(Op::Rot { p: crate::refsim::P::Z, th: 0.3 + t as f64, ctls: vec![], t, var: 0 });
            all.push(Op::Gate { g: G::H, ctls: vec![], t, var: 0 });
            all.push(Op::Gate { g: G::H, ctls: vec![], t, var: 0 });
            all.push(Op::Gate { g: G::X, ctls: vec![(t + 1) % 3], t, var: 0 });
        }
        all.extend_from_slice(&q[3..]);
        if r.bool() {
            all.push(Op::Gate { g: G::H, ctls: vec![], t: 0, var: 0 });
            all.push(Op::Gate { g: G::X, ctls: vec![0], t: 2, var: 0 });
        }
        p.clear();
        let seed = r.u64();
        run_case(cx, Kind::Sim, seed, &all, Opts { nnz_cap: 600, ..o() });
        cx.n("programs_long_queue", 1);
    }
}

pub fn c03(cx: &mut Ctx) {
    let m = Profile { w_measure: 2.0, w_joint: 2.0, w_force: 1.0, w_observe: 1.5, ..gates() };
    let plan: Plan = vec![
        ("small", 40_000, Kind::Sim, Profile { max_q: 4, ops: (4, 30), ..m.clone() }, o()),
        ("pending_then_measure", 40_000, Kind::Sim, Profile { min_q: 1, max_q: 3, ops: (3, 12), w_rot: 8.0, w_h: 5.0, ..m.clone() }, o()),
        ("medium", 4_000, Kind::Sim, Profile { min_q: 4, max_q: 8, max_ctls: 5, ops: (20, 80), ..m.clone() }, o()),
        ("moving_ids", 12_000, Kind::Sim, Profile { max_q: 6, ops: (10, 60), w_alloc: 1.0, w_release: 1.0, w_swap: 1.5, ..m.clone() }, o()),
        ("wide", 1_500, Kind::Sim, Profile { min_q: 2, max_q: 5, idle: 130, ops: (20, 70), ..m.clone() }, Opts { nnz_cap: 600, ..o() }),
        ("full_states", 40, Kind::Sim, Profile { spread: true, min_q: 11, max_q: 14, ops: (4, 14), w_h: 0.3, w_rot: 1.0, w_exp: 0.1, w_measure: 2.0, w_joint: 3.0, w_observe: 1.0, ..gates() }, Opts { nnz_cap: 40_000, ..o() }),
        ("huge_states", 8, Kind::Sim, Profile { spread: true, min_q: 16, max_q: 17, ops: (3, 7), w_h: 0.3, w_rot: 1.0, w_exp: 0.1, w_measure: 2.0, w_joint: 3.0, w_observe: 1.0, ..gates() }, Opts { nnz_cap: 300_000, ..o() }),
        ("large_states", 40, Kind::Sim, Profile { min_q: 10, max_q: 13, max_ctls: 8, ops: (30, 90), w_h: 14.0, w_measure: 0.5, w_joint: 1.0, w_force: 0.3, w_observe: 0.4, ..gates() }, Opts { nnz_cap: 40_000, ..o() }),
        ("qir", 10_000, Kind::QirDyn, Profile { qir: true, max_q: 4, ops: (6, 40), w_force: 0.0, w_phase: 0.0, w_pm: 1.5, w_result: 1.0, ..m.clone() }, o()),
        ("few_gates_joint", 15_000, Kind::Sim, Profile { min_q: 2, max_q: 6, ops: (6, 30), w_joint: 5.0, w_gc: 6.0, ..m }, o()),
    ];
    repeatability(cx);
    long_lists(cx, 1_000, &[Kind::Sim], true);
    run_plan(cx, plan);
}

/// Immediately repeated measurements, joint measurements and forced collapses.
fn repeatability(cx: &mut Ctx) {
    let mut r = cx.rng(50);
    let prof = Profile { min_q: 1, max_q: 5, ops: (3, 30), ..gates() };
    for _ in 0..cx.cases(15_000) {
        if cx.time_up() {
            break;
        }
        let mut p = generate(&mut r, &prof);
        let n = p.iter().filter(|o| matches!(o, Op::Alloc)).count();
        for _ in 0..1 + r.below(3) {
            let k = r.below(n + 1);
            let mut v: Vec<usize> = (0..n).collect();
            r.shuffle(&mut v);
            v.truncate(k);
            let op = match r.below(3) {
                0 => Op::M(r.below(n)),
                _ => Op::JM(v),
            };
            for _ in 0..2 + r.below(3) {
                p.push(op.clone());
                if r.chance(0.3) {
                    p.push(Op::GetState);
                }
            }
        }
        let seed = r.u64();
        run_case(cx, Kind::Sim, seed, &p, o());
        cx.n("programs_repeat", 1);
    }
}

pub fn c06(cx: &mut Ctx) {
    let a = Profile { w_alloc: 2.0, w_release: 2.2, w_swap: 1.5, w_observe: 0.6, w_measure: 0.4, ..gates() };
    let plan: Plan = vec![
        ("small", 40_000, Kind::Sim, Profile { max_q: 4, ops: (6, 50), ..a.clone() }, o()),
        ("no_observers", 30_000, Kind::Sim, Profile { max_q: 4, ops: (6, 40), w_observe: 0.0, w_measure: 0.0, ..a.clone() }, o()),
        ("churn", 8_000, Kind::Sim, Profile { max_q: 5, ops: (40, 150), w_alloc: 5.0, w_release: 5.0, ..a.clone() }, o()),
        ("with_apply", 8_000, Kind::Sim, Profile { min_q: 2, max_q: 5, ops: (10, 50), w_apply: 1.0, ..a.clone() }, o()),
        ("wide", 800, Kind::Sim, Profile { min_q: 2, max_q: 4, idle: 120, ops: (30, 90), ..a.clone() }, Opts { nnz_cap: 500, ..o() }),
        ("very_wide", 240, Kind::Sim, Profile { min_q: 2, max_q: 4, idle: 360, ops: (40, 120), w_swap: 5.0, ..a.clone() }, Opts { nnz_cap: 300, ..o() }),
        ("full_states", 30, Kind::Sim, Profile { spread: true, min_q: 11, max_q: 14, ops: (4, 14), w_h: 0.3, w_rot: 1.0, w_exp: 0.1, w_release: 3.0, w_swap: 2.0, w_alloc: 0.5, w_observe: 0.3, ..gates() }, Opts { nnz_cap: 40_000, ..o() }),
        ("huge_states", 8, Kind::Sim, Profile { spread: true, min_q: 16, max_q: 17, ops: (3, 7), w_h: 0.3, w_rot: 1.0, w_exp: 0.1, w_release: 3.0, w_swap: 2.0, w_alloc: 0.5, w_observe: 0.3, ..gates() }, Opts { nnz_cap: 300_000, ..o() }),
        ("large_states", 40, Kind::Sim, Profile { min_q: 10, max_q: 13, ops: (30, 90), w_h: 14.0, w_alloc: 0.6, w_release: 0.6, w_swap: 1.5, w_observe: 0.3, ..gates() }, Opts { nnz_cap: 40_000, ..o() }),
        ("qir", 15_000, Kind::QirDyn, Profile { qir: true, max_q: 4, ops: (6, 50), w_phase: 0.0, w_pm: 0.3, w_result: 0.2, ..a.clone() }, o()),
        ("basis_states", 15_000, Kind::Sim, Profile { min_q: 2, max_q: 6, idle: 6, ops: (10, 60), w_h: 0.2, w_rot: 0.3, w_rotc: 0.2, w_exp: 0.1, ..a }, o()),
    ];
    crate::simchecks2::crowds(cx, &[Kind::Sim, Kind::QirDyn], 800);
    run_plan(cx, plan);
}

pub fn c07(cx: &mut Ctx) {
    let a = Profile { w_apply: 5.0, max_apply: 3, ..gates() };
    let plan: Plan = vec![
        ("small", 25_000, Kind::Sim, Profile { max_q: 4, ops: (3, 20), ..a.clone() }, o()),
        ("released_gaps", 15_000, Kind::Sim, Profile { max_q: 5, ops: (6, 40), w_alloc: 1.0, w_release: 1.5, w_swap: 1.5, ..a.clone() }, o()),
        ("big_unitaries", 1_500, Kind::Sim, Profile { min_q: 4, max_q: 7, max_apply: 6, ops: (4, 14), ..a.clone() }, o()),
        ("large_states", 24, Kind::Sim, Profile { min_q: 9, max_q: 12, ops: (20, 60), w_h: 14.0, w_apply: 3.0, max_apply: 5, ..gates() }, Opts { nnz_cap: 40_000, ..o() }),
        ("huge_unitaries", 40, Kind::Sim, Profile { min_q: 7, max_q: 9, max_apply: 8, ops: (3, 7), ..a.clone() }, o()),
        ("observed", 8_000, Kind::Sim, Profile { max_q: 5, ops: (6, 40), w_observe: 1.5, w_measure: 0.8, w_joint: 0.3, ..a.clone() }, o()),
        ("wide", 800, Kind::Sim, Profile { min_q: 2, max_q: 5, idle: 120, ops: (10, 50), ..a }, Opts { nnz_cap: 500, ..o() }),
    ];
    controlled_helper(cx);
    run_plan(cx, plan);
}

pub fn controlled_case(k: usize, nc: usize, kind: u8, seed: u64) -> Option<String> {
    let u = U { kind, k, seed };
    let d = 1usize << k;
    let m = unitary(&u);
    let a = ndarray::Array2::from_shape_vec((d, d), m.clone()).unwrap();
    let got = match catch(|| quantum_sparse_sim::controlled(&a, nc as u32)) {
        Ok(g) => g,
        Err(e) => return Some(format!("controlled() panicked: {e}")),
    };
    let dd = d << nc;
    if got.shape() != [dd, dd] {
        return Some(format!("controlled matrix has shape {:?}, expected {dd}x{dd}", got.shape()));
    }
    for i in 0..dd {
        for j in 0..dd {
            let want = if i >= dd - d && j >= dd - d {
                m[(i + d - dd) * d + (j + d - dd)]
            } else if i == j {
                num_complex::Complex64::new(1.0, 0.0)
            } else {
                num_complex::Complex64::new(0.0, 0.0)
            };
            if got[(i, j)] != want {
                return Some(format!("controlled matrix entry ({i},{j}) is {} instead of {want}", got[(i, j)]));
            }
        }
    }
    None
}

fn controlled_helper(cx: &mut Ctx) {
    let mut r = cx.rng(60);
    for _ in 0..cx.cases(2_000) {
        let (k, nc, kind, seed) = (r.below(5), r.below(4), *r.pick(&[0u8, 1, 2, 3, 4]), r.u64() >> 8);
        let body = format!("controlled {k} {nc} {kind} {seed}\n");
        cx.journal("controlled", &body);
        if let Some(e) = controlled_case(k, nc, kind, seed) {
            cx.violation("controlled", &body, &e);
            return;
        }
        cx.n("controlled_matrices", 1);
        cx.seen_text(&format!("controlled {k} {nc} {kind}"));
    }
}

pub fn c09(cx: &mut Ctx) {
    let b = Profile { tiny: false, w_observe: 4.0, w_exp: 2.0, w_measure: 0.6, w_joint: 0.3, ..gates() };
    let plan: Plan = vec![
        ("small", 30_000, Kind::Sim, Profile { max_q: 4, ops: (4, 40), ..b.clone() }, o()),
        ("exponentials", 15_000, Kind::Sim, Profile { min_q: 1, max_q: 5, ops: (4, 20), w_exp: 8.0, ..b.clone() }, o()),
        ("cancellation", 20_000, Kind::Sim, Profile { min_q: 1, max_q: 4, ops: (6, 50), w_h: 8.0, w_rot: 1.0, w_rotc: 0.6, w_apply: 1.0, ..b.clone() }, o()),
        ("lifecycle", 15_000, Kind::Sim, Profile { max_q: 5, ops: (8, 60), w_alloc: 1.2, w_release: 1.4, w_swap: 1.2, w_apply: 0.5, ..b.clone() }, o()),
        ("wide", 1_000, Kind::Sim, Profile { min_q: 2, max_q: 5, idle: 130, ops: (10, 60), ..b.clone() }, Opts { nnz_cap: 500, ..o() }),
        ("large_states", 40, Kind::Sim, Profile { min_q: 10, max_q: 13, max_ctls: 8, ops: (30, 90), w_h: 14.0, w_observe: 1.0, w_measure: 0.2, ..gates() }, Opts { nnz_cap: 40_000, ..o() }),
        ("full_states", 40, Kind::Sim, Profile { spread: true, min_q: 11, max_q: 14, ops: (3, 14), w_h: 0.3, w_rot: 1.0, w_exp: 0.1, w_observe: 5.0, w_release: 0.3, w_measure: 0.1, ..gates() }, Opts { nnz_cap: 40_000, ..o() }),
        ("huge_states", 8, Kind::Sim, Profile { spread: true, min_q: 16, max_q: 17, ops: (3, 7), w_h: 0.3, w_rot: 1.0, w_exp: 0.1, w_observe: 5.0, w_release: 0.3, w_measure: 0.1, ..gates() }, Opts { nnz_cap: 300_000, ..o() }),
        ("qir_full_states", 16, Kind::QirDyn, Profile { qir: true, w_phase: 0.0, spread: true, min_q: 11, max_q: 14, ops: (3, 14), w_h: 0.3, w_rot: 1.0, w_exp: 0.1, w_observe: 5.0, w_release: 0.3, w_measure: 0.1, ..gates() }, Opts { nnz_cap: 40_000, ..o() }),
        ("qir", 12_000, Kind::QirDyn, Profile { qir: true, max_q: 4, ops: (6, 40), w_phase: 0.0, w_pm: 0.5, w_result: 0.5, w_qirgate: 1.5, w_alloc: 0.5, w_release: 0.5, ..b.clone() }, o()),
        ("qir_static", 8_000, Kind::QirStat, Profile { qir: true, static_ids: true, max_q: 4, ops: (6, 40), w_phase: 0.0, w_pm: 0.5, w_result: 0.5, w_qirgate: 1.5, ..b.clone() }, o()),
    ];
    run_plan(cx, plan);
    // snapshot and dump agree bit for bit when taken back to back, in either order
    let mut r = cx.rng(40);
    let prof = Profile { w_alloc: 0.5, w_release: 0.5, w_apply: 0.3, w_observe: 0.3, max_q: 5, ..b };
    for _ in 0..cx.cases(8_000) {
        if cx.time_up() {
            break;
        }
        let p = generate(&mut r, &prof);
        let seed = r.u64();
        let dump_first = r.bool();
        let body = format!("#seed {seed}\n#dumpfirst {}\n{}", u8::from(dump_first), to_text(&p));
        cx.journal("snapdump", &body);
        if let Some(e) = snapdump_case(seed, dump_first, &p) {
            let small = ddmin(&p, Duration::from_secs(10), |c| snapdump_case(seed, dump_first, &sanitize_dynamic(c)).is_some());
            let small = sanitize_dynamic(&small);
            let e = snapdump_case(seed, dump_first, &small).unwrap_or(e);
            let body = format!("#seed {seed}\n#dumpfirst {}\n{}", u8::from(dump_first), to_text(&small));
            cx.violation("snapdump", &body, &e);
            return;
        }
        cx.n("snapshot_dump_pairs", 1);
    }
}

/// Runs the program (no reference), then compares a snapshot with a dump taken next to it.
pub fn snapdump_case(seed: u64, dump_first: bool, p: &[Op]) -> Option<String> {
    let r = catch(|| {
        let mut t = SimTarget::seeded(seed);
        let mut live = 0usize;
        for op in p {
            match op {
                Op::Alloc => live += 1,
                Op::Release(_) => live -= 1,
                _ => {}
            }
            let _ = t.exec(op, 0.0);
        }
        let _ = live;
        let (d, s);
        if dump_first {
            d = t.sim.dump();
            s = t.sim.get_state();
        } else {
            s = t.sim.get_state();
            d = t.sim.dump();
        }
        (d, s)
    });
    let (d, (s, n)) = match r {
        Ok(x) => x,
        Err(e) => return Some(format!("the code under test panicked: {e}")),
    };
    let v = match parse_dump(&d) {
        Ok((_, v)) => v,
        Err(e) => return Some(e),
    };
    if v.len() != s.len() {
        return Some(format!("dump lists {} entries, snapshot {}", v.len(), s.len()));
    }
    for (a, b) in v.iter().zip(&s) {
        if a.0 != b.0 || (a.1 - b.1).norm() > 1e-12 {
            return Some(format!("dump entry {} {} differs from snapshot entry {} {}", a.0, a.1, b.0, b.1));
        }
        if a.0.bits() > n as u64 {
            return Some(format!("entry {} does not fit {n} qubits", a.0));
        }
    }
    None
}

pub fn c10(cx: &mut Ctx) {
    let q = Profile { qir: true, w_phase: 0.0, w_qirgate: 5.0, w_exp: 1.5, w_rotc: 3.0, ..gates() };
    let plan: Plan = vec![
        ("dynamic", 30_000, Kind::QirDyn, Profile { max_q: 4, ops: (3, 30), ..q.clone() }, o()),
        ("static", 30_000, Kind::QirStat, Profile { static_ids: true, max_q: 4, ops: (3, 30), ..q.clone() }, o()),
        ("observed", 10_000, Kind::QirDyn, Profile { max_q: 5, ops: (6, 50), w_observe: 2.0, w_measure: 0.5, w_pm: 0.4, w_alloc: 0.5, w_release: 0.5, ..q.clone() }, o()),
        ("static_observed", 10_000, Kind::QirStat, Profile { static_ids: true, max_q: 5, ops: (6, 50), w_observe: 2.0, w_measure: 0.5, w_pm: 0.4, w_result: 0.5, ..q.clone() }, o()),
        ("many_controls", 4_000, Kind::QirDyn, Profile { min_q: 5, max_q: 8, max_ctls: 7, ops: (10, 50), w_h: 4.0, ..q.clone() }, o()),
        ("static_wide", 600, Kind::QirStat, Profile { static_ids: true, min_q: 2, max_q: 4, idle: 40, ops: (10, 50), ..q.clone() }, Opts { nnz_cap: 500, ..o() }),
    ];
    long_lists(cx, 1_000, &[Kind::QirDyn, Kind::QirStat], false);
    crate::simchecks2::crowds(cx, &[Kind::QirStat, Kind::QirStat, Kind::QirDyn], 800);
    run_plan(cx, plan);
    inverse_pairs(cx);
    first_use(cx);
}

/// body then adjoint (and ctl then ctladj) returns the state to where it was, with unrelated pending gates around.
fn inverse_pairs(cx: &mut Ctx) {
    let mut r = cx.rng(33);
    let prof = Profile { qir: true, w_phase: 0.0, min_q: 2, max_q: 4, ops: (3, 12), ..gates() };
    for _ in 0..cx.cases(10_000) {
        if cx.time_up() {
            break;
        }
        let mut p = generate(&mut r, &prof);
        let n: usize = p.iter().map(|o| match o { Op::Alloc => 1, Op::AllocN(n) => *n, _ => 0 }).sum();
        let t = r.below(n);
        let mut ctls: Vec<usize> = (0..n).filter(|x| *x != t).collect();
        r.shuffle(&mut ctls);
        ctls.truncate(r.below(n));
        let mut last = 0.4;
        let th = crate::generate::angle(&mut r, &mut last, true);
        let v = 2 * r.below(2) as u8;
        let (a, b) = match r.below(4) {
            0 => (Op::Gate { g: G::S, ctls: ctls.clone(), t, var: 3 }, Op::Gate { g: G::Sadj, ctls, t, var: 3 }),
            1 => (Op::Gate { g: G::T, ctls: ctls.clone(), t, var: 3 }, Op::Gate { g: G::Tadj, ctls, t, var: 3 }),
            2 => {
                let pa = *r.pick(&[crate::refsim::P::I, crate::refsim::P::X, crate::refsim::P::Y, crate::refsim::P::Z]);
                (Op::RP { p: pa, th, ctls: ctls.clone(), t, var: v }, Op::RP { p: pa, th, ctls, t, var: v | 1 })
            }
            _ => {
                let ps = vec![(*r.pick(&[crate::refsim::P::X, crate::refsim::P::Y, crate::refsim::P::Z]), t)];
                // var 2 calls the adjoint entry with the negated angle, hence th twice with opposite sign
                (Op::Exp { ps: ps.clone(), th, ctls: ctls.clone(), var: 1 }, Op::Exp { ps, th: -th, ctls, var: 3 })
            }
        };
        let at = p.len();
        p.push(a);
        if r.chance(0.3) {
            p.push(Op::GetState);
        }
        p.push(b);
        let _ = at;
        let seed = r.u64();
        run_case(cx, Kind::QirDyn, seed, &p, o());
        cx.n("programs_inverse_pairs", 1);
    }
}

/// Static qubits appear on first use by each kind of intrinsic, with others already entangled.
fn first_use(cx: &mut Ctx) {
    use crate::refsim::P::*;
    let mut r = cx.rng(34);
    for _ in 0..cx.cases(6_000) {
        if cx.time_up() {
            break;
        }
        let base = 1 + r.below(3);
        let mut p = vec![];
        for i in 0..base {
            p.push(Op::Gate { g: G::H, ctls: vec![], t: i, var: 0 });
            if i > 0 {
                p.push(Op::Gate { g: G::X, ctls: vec![i - 1], t: i, var: r.below(4) as u8 });
            }
            p.push(Op::Rot { p: *r.pick(&[X, Y]), th: r.f64() * 3.0, ctls: vec![], t: i, var: 0 });
        }
        let far = base + r.below(70);
        let th = r.f64() * 6.0 - 3.0;
        let old = r.below(base);
        let var = r.below(4) as u8;
        let ops: Vec<Op> = vec![
            Op::Gate { g: *r.pick(&ALL_G), ctls: vec![], t: far, var: 0 },
            Op::Gate { g: *r.pick(&ALL_G), ctls: vec![old], t: far, var },
            Op::Gate { g: *r.pick(&ALL_G), ctls: vec![far], t: old, var },
            Op::Gate { g: *r.pick(&ALL_G), ctls: vec![far, old], t: far + 1, var },
            Op::Rot { p: *r.pick(&[X, Y, Z]), th, ctls: vec![], t: far, var: 0 },
            Op::Rot { p: *r.pick(&[X, Y, Z]), th, ctls: vec![old], t: far, var: 1 },
            Op::Rot { p: *r.pick(&[X, Y, Z]), th, ctls: vec![far], t: old, var: 1 },
            Op::RP { p: *r.pick(&[I, X, Y, Z]), th, ctls: vec![], t: far, var },
            Op::RP { p: *r.pick(&[X, Y, Z]), th, ctls: vec![far], t: old, var },
            Op::Exp { ps: vec![(*r.pick(&[X, Y, Z]), far), (*r.pick(&[X, Y, Z]), old)], th, ctls: vec![], var },
            Op::Exp { ps: vec![(*r.pick(&[X, Y, Z]), old)], th, ctls: vec![far], var: var | 1 },
            Op::Rpp(*r.pick(&[X, Y, Z]), th, far, old),
            Op::Rpp(*r.pick(&[X, Y, Z]), th, old, far),
            Op::Swap(far, old),
            Op::Swap(old, far),
            Op::Sx(far),
            Op::M(far),
            Op::Reset(far),
            Op::Mz(far, r.below(5)),
            Op::MResetZ(far, r.below(5)),
            Op::PM(vec![(*r.pick(&[X, Y, Z]), far), (*r.pick(&[X, Y, Z]), old)]),
        ];
        let k = 1 + r.below(3);
        for _ in 0..k {
            p.push(r.pick(&ops).clone());
        }
        p.push(Op::GetState);
        p.push(Op::Gate { g: G::X, ctls: vec![old], t: far, var: 0 });
        let seed = r.u64();
        run_case(cx, Kind::QirStat, seed, &p, o());
        cx.n("programs_first_use", 1);
    }
}

pub fn c11(cx: &mut Ctx) {
    let q = Profile { qir: true, w_phase: 0.0, w_result: 8.0, w_measure: 2.0, w_qirgate: 0.5, ..gates() };
    let plan: Plan = vec![
        ("static", 30_000, Kind::QirStat, Profile { static_ids: true, max_q: 4, ops: (6, 60), ..q.clone() }, o()),
        ("dynamic", 15_000, Kind::QirDyn, Profile { max_q: 4, ops: (6, 60), w_alloc: 0.3, w_release: 0.3, ..q.clone() }, o()),
        ("many_results", 3_000, Kind::QirStat, Profile { static_ids: true, max_q: 3, max_result: 90, ops: (40, 200), w_result: 20.0, ..q.clone() }, o()),
        ("wide_result_ids", 3_000, Kind::QirStat, Profile { static_ids: true, max_q: 3, result_pool: true, ops: (20, 80), w_result: 20.0, ..q.clone() }, o()),
        ("mid_circuit", 15_000, Kind::QirStat, Profile { static_ids: true, max_q: 5, max_result: 4, ops: (10, 60), w_h: 5.0, w_gc: 5.0, ..q.clone() }, o()),
        ("with_reinit", 0, Kind::QirStat, q.clone(), o()),
    ];
    run_plan(cx, plan);
    many_ones(cx);
    crate::stdchecks::dynamic_results(cx);
}

/// Hundreds to thousands of results, most of them One, before results are measured again and read.
fn many_ones(cx: &mut Ctx) {
    let mut r = cx.rng(77);
    for _ in 0..cx.cases(240) {
        if cx.time_up() {
            break;
        }
        let n = 200 + r.below(2_400);
        let ones = 0.7 + 0.3 * r.f64();
        let mut p = vec![Op::Gate { g: G::X, ctls: vec![], t: 0, var: 0 }];
        let mut ids: Vec<usize> = (0..n).collect();
        r.shuffle(&mut ids);
        for id in ids {
            p.push(if r.chance(0.2) { Op::Mz(0, id) } else { Op::Write(r.chance(ones), id) });
        }
        for _ in 0..150 {
            let id = r.below(n);
            match r.below(5) {
                0 => p.push(Op::Write(r.bool(), id)),
                1 => {
                    p.push(Op::Gate { g: *r.pick(&[G::H, G::X]), ctls: vec![], t: 1, var: 0 });
                    p.push(if r.bool() { Op::Mz(1, id) } else { Op::MResetZ(1, id) });
                }
                2 => p.push(Op::Mz(r.below(3), id)),
                _ => {}
            }
            p.push(Op::Read(if r.chance(0.7) { id } else { r.below(n) }, r.below(4) as u8));
        }
        cx.max("most_results_live", n as f64);
        let seed = r.u64();
        run_case(cx, Kind::QirStat, seed, &p, o());
        cx.n("programs_many_results", 1);
    }
}

pub fn c12(cx: &mut Ctx) {
    let q = Profile { qir: true, w_phase: 0.0, w_pm: 5.0, w_ap: 5.0, w_measure: 0.3, ..gates() };
    let plan: Plan = vec![
        ("small", 30_000, Kind::QirDyn, Profile { max_q: 4, ops: (4, 30), ..q.clone() }, o()),
        ("static", 15_000, Kind::QirStat, Profile { static_ids: true, max_q: 4, ops: (4, 30), ..q.clone() }, o()),
        ("medium", 3_000, Kind::QirDyn, Profile { min_q: 4, max_q: 7, ops: (10, 50), ..q.clone() }, o()),
        ("moving_ids", 6_000, Kind::QirDyn, Profile { max_q: 5, ops: (10, 50), w_alloc: 0.7, w_release: 0.7, w_observe: 0.7, ..q.clone() }, o()),
        ("stabiliser", 15_000, Kind::QirDyn, Profile { min_q: 1, max_q: 5, ops: (6, 40), w_rot: 0.0, w_rotc: 0.0, w_exp: 0.0, w_h: 5.0, w_gc: 6.0, ..q.clone() }, o()),
    ];
    long_lists(cx, 1_000, &[Kind::QirDyn, Kind::QirStat], true);
    run_plan(cx, plan);
    crate::stdchecks::failing_assertions(cx);
}

pub fn random_program(r: &mut Rng, kind: Kind, max_q: usize, ops: (usize, usize)) -> Vec<Op> {
    let base = Profile {
        max_q,
        ops,
        w_measure: 1.5,
        w_joint: 0.5,
        w_observe: 1.0,
        ..gates()
    };
    let pr = match kind {
        Kind::Sim => Profile { w_alloc: 0.8, w_release: 0.8, w_apply: 0.5, w_force: 0.3, ..base },
        Kind::QirDyn => Profile { qir: true, w_phase: 0.0, w_alloc: 0.8, w_release: 0.8, w_pm: 0.5, w_result: 1.0, w_qirgate: 1.0, ..base },
        Kind::QirStat => Profile { qir: true, static_ids: true, w_phase: 0.0, w_pm: 0.5, w_result: 1.5, w_qirgate: 1.0, ..base },
    };
    generate(r, &pr)
}

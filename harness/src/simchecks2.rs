//! Checks C02, C04, C05, C08, C13, C14: twin runs, statistics, reproducibility, misuse, isolation.
use crate::ctx::{Ctx, catch, clip, ddmin};
use crate::generate::{Profile, generate};
use crate::lockstep::*;
use crate::prog::*;
use crate::refsim::{P, RefState};
use crate::rng::Rng;
use crate::simchecks::{Kind, account, case_body, execute, random_program, report, run_case, sanitize};
use crate::stats::{ALPHA, gof};
use crate::targets::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::process::{Command, Stdio};
use std::sync::{Arc, Barrier};
use std::time::Duration;

pub fn make(kind: Kind, seed: u64) -> Box<dyn Target> {
    match kind {
        Kind::Sim => Box::new(SimTarget::seeded(seed)),
        k => Box::new(QirTarget::start(seed, k == Kind::QirStat)),
    }
}

/// Exact record of everything observable: one line per operation and the final state.
pub fn trace_on(t: &mut dyn Target, p: &[Op]) -> Vec<String> {
    let mut v: Vec<String> = p.iter().map(|o| t.exec(o, 0.0).exact()).collect();
    let (s, n) = t.state();
    v.push(Obs::State(s, n).exact());
    v
}
pub fn trace(kind: Kind, seed: u64, p: &[Op]) -> Vec<String> {
    match catch(|| trace_on(&mut *make(kind, seed), p)) {
        Ok(v) => v,
        Err(e) => vec![format!("panic {e}")],
    }
}
fn trace_hash(v: &[String]) -> u64 {
    hash_text(&v.join("|"))
}
fn first_diff(a: &[String], b: &[String]) -> Option<usize> {
    (0..a.len().max(b.len())).find(|i| a.get(*i) != b.get(*i))
}

// ---- C02 -------------------------------------------------------------------------------------

/// A program in which some operations are inserted observers ("+ op" lines in the text form).
type Marked = Vec<(bool, Op)>;

fn marked_text(seed: u64, p: &Marked) -> String {
    let mut s = format!("#seed {seed}\n");
    for (m, o) in p {
        s.push_str(&format!("{}{}\n", if *m { "+ " } else { "" }, o.text()));
    }
    s
}
fn marked_parse(body: &str) -> Marked {
    body.lines()
        .map(str::trim)
        .filter(|l| !l.is_empty() && !l.starts_with('#'))
        .map(|l| match l.strip_prefix("+ ") {
            Some(r) => (true, Op::parse(r).unwrap()),
            None => (false, Op::parse(l).unwrap()),
        })
        .collect()
}

struct TwinStat {
    outcomes: u64,
    observers: u64,
    repeats: u64,
    stats: Stats,
}

fn close_obs(a: &Obs, b: &Obs) -> bool {
    match (a, b) {
        (Obs::F(x), Obs::F(y)) => (x - y).abs() < 1e-9,
        (Obs::State(x, n), Obs::State(y, m)) => n == m && states_agree(x, y),
        (Obs::Text(x), Obs::Text(y)) => {
            x == y
                || match (parse_dump(x), parse_dump(y)) {
                    (Ok((r1, s1)), Ok((r2, s2))) => r1 == r2 && states_agree(&s1, &s2),
                    _ => false,
                }
        }
        _ => a == b,
    }
}
type Raw = Vec<(num_bigint::BigUint, num_complex::Complex64)>;
/// equal up to rounding and a global phase
fn states_agree(x: &Raw, y: &Raw) -> bool {
    let xm: BTreeMap<_, _> = x.iter().cloned().collect();
    let ym: BTreeMap<_, _> = y.iter().cloned().collect();
    let mut ip = num_complex::Complex64::new(0.0, 0.0);
    for (k, a) in &xm {
        if let Some(b) = ym.get(k) {
            ip += a.conj() * b;
        }
    }
    if ip.norm() < 1e-6 {
        return false;
    }
    let ph = ip / ip.norm();
    let z = num_complex::Complex64::new(0.0, 0.0);
    xm.keys().chain(ym.keys()).all(|k| {
        let a = xm.get(k).copied().unwrap_or(z);
        let b = ym.get(k).copied().unwrap_or(z);
        (a * ph - b).norm() < 1e-6
    })
}

/// Runs the program with and without the marked observers and compares everything both produce.
fn twin(kind: Kind, seed: u64, p: &Marked) -> Result<TwinStat, String> {
    catch(|| twin_inner(kind, seed, p)).unwrap_or_else(|e| Err(format!("the code under test panicked: {e}")))
}
fn twin_inner(kind: Kind, seed: u64, p: &Marked) -> Result<TwinStat, String> {
    let mut ts = TwinStat { outcomes: 0, observers: 0, repeats: 0, stats: Stats::default() };
    let plain: Vec<Op> = p.iter().filter(|x| !x.0).map(|x| x.1.clone()).collect();
    // A: without observers
    let mut a_obs: Vec<Obs> = vec![];
    let (a_state, a_n);
    {
        let mut t = make(kind, seed);
        for o in &plain {
            a_obs.push(t.exec(o, 0.0));
        }
        (a_state, a_n) = t.state();
    }
    // B: with observers
    let mut t = make(kind, seed);
    let mut i = 0;
    let mut last: Option<(Op, Obs)> = None;
    for (marked, o) in p {
        let ob = t.exec(o, 0.0);
        if let Some((lo, lob)) = &last {
            if lo == o && o.is_observer() {
                ts.repeats += 1;
                if !close_obs(lob, &ob) {
                    return Err(format!("{} repeated at once answers {ob:?} after {lob:?}", o.text()));
                }
            }
        }
        if *marked {
            ts.observers += 1;
        } else {
            if !matches!(ob, Obs::None) {
                ts.outcomes += 1;
            }
            if !close_obs(&a_obs[i], &ob) {
                return Err(format!(
                    "{} gives {ob:?} with observers inserted before it and {:?} without",
                    o.text(),
                    a_obs[i]
                ));
            }
            i += 1;
        }
        last = Some((o.clone(), ob));
    }
    let (b_state, b_n) = t.state();
    if a_n != b_n || !states_agree(&a_state, &b_state) {
        return Err(format!("final state differs: without observers {a_n} qubits {a_state:?}, with {b_n} qubits {b_state:?}"));
    }
    Ok(ts)
}

/// Inserts observers at random points; forced collapses only onto outcomes of probability 0 or 1.
fn insert_observers(r: &mut Rng, kind: Kind, seed: u64, p: &[Op], rate: f64) -> Marked {
    let mut out: Marked = vec![];
    let mut m = Monitor::new(kind == Kind::QirStat);
    let mut t = make(kind, seed);
    let mut track = true;
    let mut used: BTreeSet<usize> = BTreeSet::new();
    for op in p {
        let ob = t.exec(op, 0.0);
        out.push((false, op.clone()));
        if track && (m.judge(op, &ob) != Ok(true) || m.nnz() > 40_000) {
            track = false; // an unrelated failure: keep going without forced collapses
        }
        if !track {
            break;
        }
        used.extend(op.qubits());
        if !r.chance(rate) {
            continue;
        }
        let live: Vec<usize> = if kind == Kind::QirStat {
            used.iter().copied().filter(|q| m.live.contains(q)).collect()
        } else {
            m.live.iter().copied().collect()
        };
        for _ in 0..1 + r.below(3) {
            let n = r.below(live.len().min(5) + 1);
            let mut v = live.clone();
            r.shuffle(&mut v);
            v.truncate(n);
            let obs = match r.below(if kind == Kind::Sim { 6 } else { 4 }) {
                0 => Op::GetState,
                1 => Op::Dump,
                2 | 3 if !live.is_empty() => Op::IsZero(*r.pick(&live)),
                4 => Op::JP(v),
                5 if !live.is_empty() => {
                    let q = *r.pick(&live);
                    let ps: Vec<f64> = m.hyps.iter().map(|h| h.st.prob_odd(&[q])).collect();
                    if ps.iter().all(|p| *p < 1e-13) || ps.iter().all(|p| *p > 1.0 - 1e-13) {
                        Op::Force(r.bool(), q)
                    } else {
                        Op::JP(vec![q])
                    }
                }
                _ => continue,
            };
            out.push((true, obs.clone()));
            if r.chance(0.3) && obs.is_observer() {
                out.push((true, obs));
            }
        }
    }
    out
}

fn sanitize_marked(kind: Kind, seed: u64, p: &[(bool, Op)]) -> Marked {
    if kind == Kind::QirStat {
        return p.to_vec();
    }
    // forced collapses stay valid only if the program before them is unchanged: drop those whose outcome
    // is no longer certain
    let ops: Vec<Op> = p.iter().map(|x| x.1.clone()).collect();
    let keep = sanitize_dynamic(&ops);
    let mut out = vec![];
    let mut i = 0;
    for (m, o) in p {
        if i < keep.len() && keep[i] == *o {
            out.push((*m, o.clone()));
            i += 1;
        }
    }
    let certain = |upto: &[(bool, Op)], q: usize| -> bool {
        let mut m = Monitor::new(false);
        let mut t = make(kind, seed);
        for (_, o) in upto {
            let ob = t.exec(o, 0.0);
            if m.judge(o, &ob) != Ok(true) {
                return false;
            }
        }
        let ps: Vec<f64> = m.hyps.iter().map(|h| h.st.prob_odd(&[q])).collect();
        ps.iter().all(|p| *p < 1e-13) || ps.iter().all(|p| *p > 1.0 - 1e-13)
    };
    let mut res: Marked = vec![];
    for (m, o) in out {
        if m && let Op::Force(_, q) = &o {
            let ok = catch(|| certain(&res, *q)).unwrap_or(false);
            if !ok {
                continue;
            }
        }
        res.push((m, o));
    }
    res
}

pub fn c02(cx: &mut Ctx) {
    let g = Profile { tiny: false, ..Profile::default() };
    let plan: Vec<(&str, usize, Kind, Profile, f64)> = vec![
        ("gates", 60_000, Kind::Sim, Profile { max_q: 4, ops: (4, 30), ..g.clone() }, 0.35),
        ("measuring", 50_000, Kind::Sim, Profile { max_q: 5, ops: (5, 40), w_measure: 1.5, w_joint: 0.8, ..g.clone() }, 0.4),
        ("lifecycle", 50_000, Kind::Sim, Profile { max_q: 6, ops: (8, 60), w_alloc: 1.2, w_release: 1.4, w_swap: 1.5, w_measure: 0.6, ..g.clone() }, 0.4),
        ("apply", 15_000, Kind::Sim, Profile { max_q: 5, ops: (8, 30), w_apply: 1.5, w_release: 0.7, w_alloc: 0.7, ..g.clone() }, 0.4),
        ("one_observer", 40_000, Kind::Sim, Profile { max_q: 3, ops: (4, 18), w_rot: 8.0, w_swap: 1.5, w_measure: 0.5, ..g.clone() }, 0.08),
        ("wide", 1_000, Kind::Sim, Profile { min_q: 2, max_q: 5, idle: 130, ops: (20, 60), w_measure: 0.6, w_release: 0.6, ..g.clone() }, 0.2),
        ("very_wide", 120, Kind::Sim, Profile { min_q: 2, max_q: 4, idle: 360, ops: (30, 90), w_swap: 6.0, w_measure: 0.4, w_release: 1.0, ..g.clone() }, 0.15),
        ("full_states", 30, Kind::Sim, Profile { spread: true, min_q: 11, max_q: 14, ops: (3, 14), w_h: 0.3, w_rot: 1.0, w_exp: 0.1, w_release: 0.4, w_swap: 1.0, w_measure: 0.2, ..g.clone() }, 0.3),
        ("qir", 15_000, Kind::QirDyn, Profile { qir: true, w_phase: 0.0, max_q: 4, ops: (6, 40), w_measure: 1.0, w_alloc: 0.7, w_release: 0.7, w_pm: 0.5, w_result: 1.0, w_qirgate: 1.0, ..g.clone() }, 0.35),
        ("qir_static", 15_000, Kind::QirStat, Profile { qir: true, static_ids: true, w_phase: 0.0, max_q: 4, ops: (6, 40), w_measure: 1.0, w_pm: 0.5, w_result: 1.0, w_qirgate: 1.0, ..g }, 0.35),
    ];
    const SLICES: usize = 16;
    let mut rs: Vec<_> = (0..plan.len()).map(|i| cx.rng(1 + i as u64)).collect();
    for slice in 0..SLICES {
        for (i, (label, total, kind, prof, rate)) in plan.iter().enumerate() {
            let n = cx.cases(*total);
            for _ in n * slice / SLICES..n * (slice + 1) / SLICES {
                if cx.time_up() {
                    return;
                }
                let r = &mut rs[i];
                let p = generate(r, prof);
                let seed = r.u64() >> 1;
                cx.journal(kind.name(), &case_body(seed, &p));
                let m = match catch(|| insert_observers(r, *kind, seed, &p, *rate)) {
                    Ok(m) => m,
                    Err(e) => {
                        report(cx, *kind, seed, &p, &e, Opts::default());
                        continue;
                    }
                };
                twin_case(cx, *kind, seed, &m);
                cx.n(&format!("programs_{label}"), 1);
            }
        }
    }
}

fn twin_case(cx: &mut Ctx, kind: Kind, seed: u64, m: &Marked) {
    let tkind = format!("twin-{}", kind.name());
    cx.journal(&tkind, &marked_text(seed, m));
    match twin(kind, seed, m) {
        Ok(ts) => {
            cx.n("twin_programs", 1);
            cx.n("observers_inserted", ts.observers);
            cx.n("immediate_repeats_compared", ts.repeats);
            cx.n("observations_compared", ts.outcomes);
            cx.n("state_comparisons", 1);
            // distinct: (operation before, observer, operation after) contexts
            for w in m.windows(3) {
                if w[1].0 {
                    cx.seen_text(&format!("{}|{}|{}", w[0].1.label(), w[1].1.kind(), w[2].1.label()));
                }
            }
            if cx.samples.len() < 3 && m.len() < 30 && m.len() > 8 {
                cx.sample(format!("[{tkind}] {}", marked_text(seed, m).replace('\n', "; ")));
            }
            // the reference model must agree with the observed program as well
            let ops: Vec<Op> = m.iter().map(|x| x.1.clone()).collect();
            if cx.counters["twin_programs"] % 8 == 0 {
                let out = execute(kind, seed, &ops, Opts::default());
                account(cx, &out.stats);
                let _ = ts.stats;
            }
        }
        Err(e) => {
            let small = ddmin(m, Duration::from_secs(15), |c| twin(kind, seed, &sanitize_marked(kind, seed, c)).is_err());
            let small = sanitize_marked(kind, seed, &small);
            let e = twin(kind, seed, &small).err().unwrap_or(e);
            cx.violation(
                &tkind,
                &marked_text(seed, &small),
                &format!("{e} [program: {}]", clip(&marked_text(seed, &small).replace('\n', "; "), 1500)),
            );
        }
    }
}

pub fn replay_twin(kind: Kind, seed: u64, body: &str) -> Option<String> {
    twin(kind, seed, &marked_parse(body)).err()
}

// ---- C04 -------------------------------------------------------------------------------------

/// Exact distribution of the visible outcome string of a program.
pub fn distribution(p: &[Op], max_branches: usize) -> Option<BTreeMap<String, f64>> {
    let mut live: BTreeSet<usize> = BTreeSet::new();
    let mut arrays: Vec<Option<Vec<usize>>> = vec![];
    let mut br: Vec<(RefState, String, f64)> = vec![(RefState::default(), String::new(), 1.0)];
    let split = |br: Vec<(RefState, String, f64)>,
                 prob: &dyn Fn(&RefState) -> f64,
                 proj: &dyn Fn(&mut RefState, bool) -> bool,
                 visible: bool,
                 clear: Option<usize>| {
        let mut out = vec![];
        for (s, txt, w) in br {
            let p1 = prob(&s);
            for b in [false, true] {
                let p = if b { p1 } else { 1.0 - p1 };
                if p > 1e-13 {
                    let mut n = s.clone();
                    if proj(&mut n, b) {
                        if let Some(q) = clear {
                            n.clear_bit(q);
                        }
                        let mut t = txt.clone();
                        if visible {
                            t.push(if b { '1' } else { '0' });
                        }
                        out.push((n, t, w * p));
                    }
                }
            }
        }
        out
    };
    for op in p {
        match op {
            Op::Alloc => {
                live.insert(lowest_free(&live));
            }
            Op::AllocN(n) => {
                let mut v = vec![];
                for _ in 0..*n {
                    let q = lowest_free(&live);
                    live.insert(q);
                    v.push(q);
                }
                arrays.push(Some(v));
            }
            Op::Release(_) | Op::ReleaseN(_) => {
                let qs = match op {
                    Op::Release(q) => vec![*q],
                    Op::ReleaseN(i) => arrays[*i].take()?,
                    _ => vec![],
                };
                for q in qs {
                    br = split(br, &|s| s.prob_odd(&[q]), &|s, b| s.project(&[q], b), false, Some(q));
                    live.remove(&q);
                }
            }
            Op::M(q) | Op::Mz(q, _) => {
                br = split(br, &|s| s.prob_odd(&[*q]), &|s, b| s.project(&[*q], b), true, None);
            }
            Op::MResetZ(q, _) => {
                br = split(br, &|s| s.prob_odd(&[*q]), &|s, b| s.project(&[*q], b), true, Some(*q));
            }
            Op::Reset(q) => {
                br = split(br, &|s| s.prob_odd(&[*q]), &|s, b| s.project(&[*q], b), false, Some(*q));
            }
            Op::JM(v) => br = split(br, &|s| s.prob_odd(v), &|s, b| s.project(v, b), true, None),
            Op::PM(v) => {
                let v: Vec<(P, usize)> = v.iter().copied().filter(|x| x.0 != P::I).collect();
                br = split(br, &|s| s.prob_pauli_minus(&v), &|s, b| s.project_pauli(&v, b), true, None);
            }
            Op::GetState | Op::Dump | Op::JP(_) | Op::IsZero(_) | Op::Barrier => {}
            o => {
                for b in &mut br {
                    if !ref_unitary(&mut b.0, o) {
                        return None;
                    }
                }
            }
        }
        if br.len() > max_branches {
            return None;
        }
    }
    let mut m = BTreeMap::new();
    for (_, t, w) in br {
        *m.entry(t).or_insert(0.0) += w;
    }
    Some(m)
}

fn bits_of(t: &mut dyn Target, p: &[Op]) -> String {
    let mut s = String::new();
    for o in p {
        if let Obs::Bool(b) = t.exec(o, 0.0)
            && matches!(o, Op::M(_) | Op::JM(_) | Op::PM(_) | Op::Mz(..) | Op::MResetZ(..))
        {
            s.push(if b { '1' } else { '0' });
        }
    }
    s
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    Seeds, // a fresh simulation per sample, consecutive seeds
    Shots, // one seeded stream, the runtime initialised (or the qubits released) between samples
}

struct Sampled {
    worst_p: f64,
    cells: usize,
    outcomes: usize,
}

/// Draws n samples and compares them with the exact distribution, and consecutive samples with independence.
fn sample_case(kind: Kind, mode: Mode, seed: u64, n: usize, p: &[Op]) -> Option<Result<Sampled, String>> {
    let dist = distribution(p, 300)?;
    let names: Vec<&String> = dist.keys().collect();
    let expect: Vec<f64> = dist.values().copied().collect();
    let idx: BTreeMap<&str, usize> = names.iter().enumerate().map(|(i, s)| (s.as_str(), i)).collect();
    let r = catch(|| {
        let mut seq: Vec<usize> = Vec::with_capacity(n);
        let mut t: Option<Box<dyn Target>> = None;
        // qubits live at the end (released in Shots mode on the bare simulator)
        let mut live: BTreeSet<usize> = BTreeSet::new();
        for o in p {
            match o {
                Op::Alloc => {
                    live.insert(lowest_free(&live));
                }
                Op::Release(q) => {
                    live.remove(q);
                }
                _ => {}
            }
        }
        for i in 0..n {
            let t = match mode {
                Mode::Seeds => t.insert(make(kind, seed.wrapping_add(i as u64))),
                Mode::Shots => {
                    if t.is_none() {
                        t = Some(make(kind, seed));
                    }
                    t.as_mut().unwrap()
                }
            };
            let s = bits_of(&mut **t, p);
            match idx.get(s.as_str()) {
                Some(j) => seq.push(*j),
                None => return Err(format!("outcomes {s} were observed in sample {i}; their probability is 0")),
            }
            if mode == Mode::Shots {
                match kind {
                    Kind::Sim => {
                        for q in &live {
                            t.exec(&Op::Release(*q), 0.0);
                        }
                    }
                    _ => {
                        t.exec(&Op::Init, 0.0);
                    }
                }
            }
        }
        Ok(seq)
    });
    let seq = match r {
        Ok(Ok(s)) => s,
        Ok(Err(e)) => return Some(Err(e)),
        Err(e) => return Some(Err(format!("the code under test panicked: {e}"))),
    };
    let k = names.len();
    let mut h = vec![0u64; k];
    for s in &seq {
        h[*s] += 1;
    }
    let (pv, cells) = gof(&h, &expect);
    if pv < ALPHA {
        let mut worst: Vec<(f64, usize)> =
            (0..k).map(|i| ((h[i] as f64 - n as f64 * expect[i]).abs() / (n as f64 * expect[i]).sqrt(), i)).collect();
        worst.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
        let w: Vec<String> = worst
            .iter()
            .take(3)
            .map(|(_, i)| format!("{}: observed {} expected {:.1}", names[*i], h[*i], n as f64 * expect[*i]))
            .collect();
        return Some(Err(format!(
            "outcome frequencies over {n} samples do not follow the Born rule (chi-square p-value {pv:e}): {}",
            w.join("; ")
        )));
    }
    let mut worst_p = pv;
    // independence of neighbouring samples, on up to 8 most likely outcomes
    let mut order: Vec<usize> = (0..k).collect();
    order.sort_by(|a, b| expect[*b].partial_cmp(&expect[*a]).unwrap());
    let mut class = vec![0usize; k];
    for (i, o) in order.iter().enumerate() {
        class[*o] = i.min(7);
    }
    let kc = k.min(8);
    let mut pc = vec![0.0; kc];
    for i in 0..k {
        pc[class[i]] += expect[i];
    }
    if kc > 1 {
        for lag in [1usize, 2, 3] {
            let mut hp = vec![0u64; kc * kc];
            for w in seq.windows(lag + 1).step_by(lag + 1) {
                hp[class[w[0]] * kc + class[w[lag]]] += 1;
            }
            let e: Vec<f64> = (0..kc * kc).map(|x| pc[x / kc] * pc[x % kc]).collect();
            let (pp, _) = gof(&hp, &e);
            worst_p = worst_p.min(pp);
            if pp < ALPHA {
                return Some(Err(format!(
                    "samples {lag} apart are not independent (chi-square p-value {pp:e}, {n} samples, pair counts {hp:?})"
                )));
            }
        }
    }
    Some(Ok(Sampled { worst_p, cells, outcomes: k }))
}

fn coins(kind: Kind, seed: u64, n: usize) -> Result<Vec<bool>, String> {
    catch(|| {
        let mut t = make(kind, seed);
        if kind != Kind::QirStat {
            t.exec(&Op::Alloc, 0.0);
        }
        (0..n)
            .map(|_| {
                t.exec(&Op::Gate { g: G::H, ctls: vec![], t: 0, var: 0 }, 0.0);
                let ob = if kind == Kind::QirStat {
                    t.exec(&Op::MResetZ(0, 3), 0.0)
                } else {
                    let o = t.exec(&Op::M(0), 0.0);
                    if o == Obs::Bool(true) {
                        t.exec(&Op::Gate { g: G::X, ctls: vec![], t: 0, var: 0 }, 0.0);
                    }
                    o
                };
                ob == Obs::Bool(true)
            })
            .collect()
    })
}

/// Tests a stream of fair bits; returns the smallest p-value or a complaint.
fn fair_stream(v: &[bool]) -> Result<f64, String> {
    let n = v.len();
    let mut worst = 1.0f64;
    let mut t = |what: String, obs: &[u64], e: &[f64]| -> Result<(), String> {
        let (p, _) = gof(obs, e);
        worst = worst.min(p);
        if p < ALPHA {
            return Err(format!("{what}: counts {:?} (p-value {p:e})", &obs[..obs.len().min(16)]));
        }
        Ok(())
    };
    let ones = v.iter().filter(|b| **b).count() as u64;
    t(format!("{n} fair measurements are unbalanced"), &[n as u64 - ones, ones], &[0.5, 0.5])?;
    for lag in [1usize, 2, 3, 4, 5, 8, 13, 16, 32, 64] {
        if lag * 50 > n {
            break;
        }
        let same = (lag..n).filter(|i| v[*i] == v[*i - lag]).count() as u64;
        t(format!("fair measurements {lag} apart are correlated"), &[(n - lag) as u64 - same, same], &[0.5, 0.5])?;
    }
    for w in [4usize, 8] {
        let mut h = vec![0u64; 1 << w];
        for c in v.chunks_exact(w) {
            h[c.iter().fold(0, |a, b| a * 2 + usize::from(*b))] += 1;
        }
        let e = vec![1.0; 1 << w];
        t(format!("blocks of {w} fair measurements are not uniform"), &h, &e)?;
    }
    Ok(worst)
}

fn stream_case(kind: Kind, seed: u64, n: usize) -> Option<String> {
    match coins(kind, seed, n) {
        Ok(v) => fair_stream(&v).err(),
        Err(e) => Some(e),
    }
}
/// first outcome across consecutive (or strided) seeds
fn across_seeds(kind: Kind, seed: u64, stride: u64, n: usize) -> Option<String> {
    let mut v = vec![];
    for i in 0..n as u64 {
        match coins(kind, seed.wrapping_add(i.wrapping_mul(stride)), 1) {
            Ok(b) => v.push(b[0]),
            Err(e) => return Some(e),
        }
    }
    fair_stream(&v).err().map(|e| format!("first outcome across seeds {seed}+i*{stride}: {e}"))
}
fn unseeded_case(n: usize) -> Option<String> {
    let r = catch(|| {
        let mut all = BTreeSet::new();
        let mut bits = vec![];
        for _ in 0..n {
            let mut sim = quantum_sparse_sim::QuantumSim::new(None);
            let mut w = 0u64;
            for _ in 0..64 {
                let q = sim.allocate();
                sim.h(q);
                let b = sim.measure(q);
                w = w * 2 + u64::from(b);
                bits.push(b);
                sim.release(q);
            }
            if !all.insert(w) {
                return Err("two unseeded simulators produced the same 64 fair outcomes".to_string());
            }
        }
        fair_stream(&bits).map(|_| ()).map_err(|e| format!("unseeded simulators: {e}"))
    });
    match r {
        Ok(Ok(())) => None,
        Ok(Err(e)) | Err(e) => Some(e),
    }
}

/// Ways to make and read an outcome of a chosen probability; the qubit is back in Zero after each draw.
const RARE: [(Kind, &str); 8] = [
    (Kind::Sim, "measure"),
    (Kind::QirStat, "mz"),
    (Kind::Sim, "joint"),
    (Kind::QirDyn, "pauli"),
    (Kind::QirStat, "mresetz"),
    (Kind::Sim, "partner"),
    (Kind::QirDyn, "m"),
    (Kind::QirDyn, "joint"),
];

/// Draws n outcomes of which each is One with probability pr (or Zero, when high is set) and compares the number of
/// rare ones with the binomial law by the Chernoff bound. Returns the number of rare outcomes, or a complaint.
fn rare_case(variant: usize, high: bool, pr: f64, seed: u64, n: usize) -> Result<usize, String> {
    let (kind, how) = RARE[variant % RARE.len()];
    let one = if high { 1.0 - pr } else { pr };
    let th = 2.0 * one.sqrt().atan2((1.0 - one).sqrt());
    let x0 = Op::Gate { g: G::X, ctls: vec![], t: 0, var: 0 };
    let h0 = Op::Gate { g: G::H, ctls: vec![], t: 0, var: 0 };
    let cx01 = Op::Gate { g: G::X, ctls: vec![0], t: 1, var: 0 };
    let x1 = Op::Gate { g: G::X, ctls: vec![], t: 1, var: 0 };
    let mut prepare = vec![Op::Rot { p: P::Y, th, ctls: vec![], t: 0, var: 0 }];
    let mut zero = vec![];
    let mut undo = vec![x0];
    let read = match how {
        "measure" | "m" => Op::M(0),
        "mz" => Op::Mz(0, 2),
        "mresetz" => {
            undo.clear();
            Op::MResetZ(0, 1)
        }
        "joint" if kind == Kind::Sim => Op::JM(vec![0, 1]),
        "joint" => Op::PM(vec![(P::Z, 0), (P::Z, 1)]),
        "pauli" => {
            prepare.push(h0.clone());
            zero.push(h0.clone());
            undo.insert(0, h0);
            Op::PM(vec![(P::X, 0)])
        }
        _ => {
            prepare.push(cx01);
            undo.push(x1);
            Op::M(1)
        }
    };
    let rare = catch(|| {
        let mut t = make(kind, seed);
        if kind != Kind::QirStat {
            t.exec(&Op::Alloc, 0.0);
            t.exec(&Op::Alloc, 0.0);
        }
        let mut rare = 0usize;
        for _ in 0..n {
            for o in &prepare {
                t.exec(o, 0.0);
            }
            let b = t.exec(&read, 0.0) == Obs::Bool(true);
            rare += usize::from(b != high);
            for o in if b { &undo } else { &zero } {
                t.exec(o, 0.0);
            }
        }
        rare
    })?;
    let q = rare as f64 / n as f64;
    let part = |a: f64, b: f64| if a > 0.0 { a * (a / b).ln() } else { 0.0 };
    let exponent = n as f64 * (part(q, pr) + part(1.0 - q, 1.0 - pr));
    if exponent > -ALPHA.ln() {
        return Err(format!(
            "an outcome of probability {pr:e} came {rare} times in {n} draws ({how}), {:.1} were expected (the chance of that is below {:e})",
            pr * n as f64,
            (-exponent).exp()
        ));
    }
    Ok(rare)
}

/// Outcomes that hardly ever, or nearly always, happen.
fn rare_outcomes(cx: &mut Ctx, r: &mut Rng) {
    let mut plan = vec![(8e-3, 200.0), (8e-4, 200.0), (8e-5, 150.0), (8e-6, 60.0)];
    if cx.thorough {
        plan.extend([(3e-5, 200.0), (8e-7, 60.0)]);
    }
    for (i, (pr, expected)) in plan.into_iter().enumerate() {
        for k in 0..if pr > 5e-4 { 4 } else { 1 } {
            if cx.time_up() {
                return;
            }
            let variant = cx.shard + k + 3 * i;
            let high = (cx.shard / 2 + k + i) % 2 == 1;
            let (seed, n) = (r.u64() >> 1, (expected / pr) as usize);
            let body = format!("#seed {seed}\n#n {n}\n#aux {}\n#probability {pr:e}\n", 2 * (variant % RARE.len()) + usize::from(high));
            cx.journal("rare", &body);
            match rare_case(variant, high, pr, seed, n) {
                Ok(rare) => {
                    cx.n("rare_outcomes_seen", rare as u64);
                    cx.n("samples_drawn", n as u64);
                    cx.n("rare_streams", 1);
                    cx.seen_text(&format!("rare {} {high} {pr:e}", variant % RARE.len()));
                }
                Err(e) => cx.violation("rare", &body, &e),
            }
        }
    }
}

fn outcome_profile(r: &mut Rng, kind: Kind) -> Profile {
    let b = Profile { max_q: 4, ops: (5, 16), tiny: false, w_measure: 1.6, w_joint: 0.9, w_h: 4.0, w_exp: 0.4, w_observe: 0.3, ..Profile::default() };
    match kind {
        Kind::Sim => Profile { w_release: if r.bool() { 0.5 } else { 0.0 }, ..b },
        _ => Profile { qir: true, static_ids: kind == Kind::QirStat, w_phase: 0.0, w_pm: 0.8, w_result: 1.5, w_release: 0.3, ..b },
    }
}

/// Chooses a random program with an interesting outcome distribution.
fn outcome_program(r: &mut Rng, kind: Kind) -> Vec<Op> {
    loop {
        let pr = outcome_profile(r, kind);
        let p: Vec<Op> = generate(r, &pr)
            .into_iter()
            .filter(|o| !matches!(o, Op::Read(..) | Op::Write(..) | Op::Rec(..) | Op::Dump | Op::GetState))
            .collect();
        let p = sanitize(kind, &p);
        if let Some(d) = distribution(&p, 300) {
            let visible = d.keys().next().map_or(0, String::len);
            if visible >= 1 && d.len() >= 2 && visible <= 9 {
                return p;
            }
        }
    }
}

pub fn c04(cx: &mut Ctx) {
    let mut r = cx.rng(1);
    let n = if cx.thorough { 60_000 } else { 25_000 };
    let combos = [
        (Kind::Sim, Mode::Seeds),
        (Kind::Sim, Mode::Shots),
        (Kind::QirDyn, Mode::Shots),
        (Kind::QirStat, Mode::Shots),
        (Kind::QirDyn, Mode::Seeds),
        (Kind::QirStat, Mode::Seeds),
    ];
    // fixed shapes first
    let stream_n = if cx.thorough { 4_000_000 } else { 400_000 };
    for kind in [Kind::Sim, Kind::QirDyn, Kind::QirStat] {
        let seed = r.u64() >> 1;
        let body = format!("#seed {seed}\n#n {stream_n}\n");
        cx.journal(&format!("stream-{}", kind.name()), &body);
        if let Some(e) = stream_case(kind, seed, stream_n) {
            cx.violation(&format!("stream-{}", kind.name()), &body, &e);
        }
        cx.n("samples_drawn", stream_n as u64);
        cx.n("stream_bits_tested", stream_n as u64);
        cx.seen_text(&format!("stream {kind:?}"));
        for stride in [1u64, 2, 1 << 32, 0x9E37_79B9_7F4A_7C15] {
            let m = 20_000;
            let body = format!("#seed {seed}\n#n {m}\n#stride {stride}\n");
            cx.journal(&format!("seeds-{}", kind.name()), &body);
            if let Some(e) = across_seeds(kind, seed, stride, m) {
                cx.violation(&format!("seeds-{}", kind.name()), &body, &e);
            }
            cx.n("samples_drawn", m as u64);
            cx.n("seeds_tested", m as u64);
            cx.seen_text(&format!("seeds {kind:?} {stride}"));
        }
    }
    cx.journal("unseeded", "#n 2000\n");
    if let Some(e) = unseeded_case(2000) {
        cx.violation("unseeded", "#n 2000\n", &e);
    }
    rare_outcomes(cx, &mut r);
    // biased single-qubit and parity probabilities
    for i in 0..cx.cases(64) {
        if cx.time_up() {
            return;
        }
        let (kind, mode) = combos[(i + cx.shard) % combos.len()];
        let pr = *r.pick(&[0.5, 0.25, 0.9, 0.1, 0.01, 0.003, 0.999, 0.6]);
        let pr: f64 = if r.chance(0.3) { r.f64() } else { pr };
        let th = 2.0 * pr.sqrt().asin();
        let ax = *r.pick(&[P::X, P::Y]);
        let mut p = vec![];
        if kind != Kind::QirStat {
            p.extend([Op::Alloc, Op::Alloc]);
        }
        p.push(Op::Rot { p: ax, th, ctls: vec![], t: 0, var: 0 });
        match r.below(4) {
            0 => p.push(Op::M(0)),
            1 => {
                p.push(Op::Gate { g: G::H, ctls: vec![], t: 1, var: 0 });
                p.push(Op::Gate { g: G::X, ctls: vec![1], t: 0, var: 0 });
                p.push(Op::JM(vec![0, 1]));
                p.push(Op::M(0));
                p.push(Op::M(1));
            }
            2 => {
                p.push(Op::Gate { g: G::X, ctls: vec![0], t: 1, var: 0 });
                p.push(Op::M(1));
                p.push(Op::M(0));
            }
            _ => {
                p.push(Op::Rot { p: ax, th: 2.0 * (1.0 - pr).sqrt().asin(), ctls: vec![], t: 1, var: 0 });
                p.push(Op::M(0));
                p.push(Op::M(1));
            }
        }
        born(cx, kind, mode, r.u64() >> 1, 2 * n, &p);
    }
    for i in 0..cx.cases(240) {
        if cx.time_up() {
            return;
        }
        let (kind, mode) = combos[(i + cx.shard) % combos.len()];
        let p = outcome_program(&mut r, kind);
        born(cx, kind, mode, r.u64() >> 1, n, &p);
    }
}

fn born(cx: &mut Ctx, kind: Kind, mode: Mode, seed: u64, n: usize, p: &[Op]) {
    let k = format!("born-{}-{mode:?}", kind.name());
    let body = format!("#seed {seed}\n#n {n}\n{}", to_text(p));
    cx.journal(&k, &body);
    match sample_case(kind, mode, seed, n, p) {
        None => cx.n("programs_skipped", 1),
        Some(Ok(s)) => {
            cx.n("programs_sampled", 1);
            cx.n("samples_drawn", n as u64);
            cx.n("outcome_cells_tested", s.cells as u64);
            cx.max("neg_log10_smallest_p_value", -s.worst_p.max(1e-300).log10());
            cx.max("max_distinct_outcomes", s.outcomes as f64);
            cx.seen_text(&format!("{kind:?}{mode:?}{}", to_text(p)));
            if cx.samples.len() < 4 {
                cx.sample(format!("[{k}] n={n} smallest p-value {:.3}: {}", s.worst_p, to_text(p).replace('\n', "; ")));
            }
        }
        Some(Err(e)) => {
            let small = ddmin(p, Duration::from_secs(25), |c| {
                let c = sanitize(kind, c);
                matches!(sample_case(kind, mode, seed, n, &c), Some(Err(_)))
            });
            let small = sanitize(kind, &small);
            let e = match sample_case(kind, mode, seed, n, &small) {
                Some(Err(e)) => e,
                _ => e,
            };
            let body = format!("#seed {seed}\n#n {n}\n{}", to_text(&small));
            cx.violation(&k, &body, &format!("{e} [program: {}]", clip(&to_text(&small).replace('\n', "; "), 1000)));
        }
    }
}

// ---- C05 -------------------------------------------------------------------------------------

/// two simulations advanced alternately in one thread
fn interleaved(seed: u64, p: &[Op], other: &[Op], r: &mut Rng) -> Vec<String> {
    catch(|| {
        let mut a = SimTarget::seeded(seed);
        let mut b = SimTarget::seeded(seed ^ 0x55);
        let mut v = vec![];
        let mut j = 0;
        for o in p {
            while j < other.len() && r.chance(0.6) {
                let _ = b.exec(&other[j], 0.0);
                j += 1;
            }
            v.push(a.exec(o, 0.0).exact());
        }
        let (s, n) = a.state();
        v.push(Obs::State(s, n).exact());
        v
    })
    .unwrap_or_else(|e| vec![format!("panic {e}")])
}

fn twice(kind: Kind, seed: u64, p: &[Op]) -> Option<String> {
    let a = trace(kind, seed, p);
    let b = trace(kind, seed, p);
    diff_msg(p, &a, &b, "run a second time in the same thread")
}
fn diff_msg(p: &[Op], a: &[String], b: &[String], how: &str) -> Option<String> {
    let i = first_diff(a, b)?;
    let none = "nothing".to_string();
    Some(format!(
        "{how}, the program differs at step {i} ({}): {} against {}",
        p.get(i).map_or("final state".to_string(), Op::text),
        clip(a.get(i).unwrap_or(&none), 300),
        clip(b.get(i).unwrap_or(&none), 300)
    ))
}
fn other_thread(kind: Kind, seed: u64, p: &[Op]) -> Vec<String> {
    let p = p.to_vec();
    std::thread::spawn(move || trace(kind, seed, &p)).join().unwrap_or_else(|_| vec!["thread died".into()])
}

/// All same-seed comparisons of one program inside this process.
pub fn repro_case(kind: Kind, seed: u64, p: &[Op], aux: u64) -> Option<String> {
    if let Some(e) = twice(kind, seed, p) {
        return Some(e);
    }
    let a = trace(kind, seed, p);
    let mut r = Rng::derive(aux, 5);
    let other = random_program(&mut r, kind, 4, (5, 40));
    let _ = trace(kind, aux, &other);
    if let Some(e) = diff_msg(p, &a, &trace(kind, seed, p), "run again after an unrelated simulation") {
        return Some(e);
    }
    if let Some(e) = diff_msg(p, &a, &other_thread(kind, seed, p), "run on another thread") {
        return Some(e);
    }
    if kind == Kind::Sim {
        let b = interleaved(seed, p, &other, &mut r);
        if let Some(e) = diff_msg(p, &a, &b, "interleaved with another simulation") {
            return Some(e);
        }
    }
    None
}

/// Program list for the child process: blocks "kind seed" + ops + "---".
fn batch_text(b: &[(Kind, u64, Vec<Op>)]) -> String {
    b.iter().map(|(k, s, p)| format!("@{} {s}\n{}", k.name(), to_text(p))).collect()
}
pub fn batch_parse(t: &str) -> Vec<(Kind, u64, Vec<Op>)> {
    let mut v: Vec<(Kind, u64, Vec<Op>)> = vec![];
    for l in t.lines().map(str::trim).filter(|l| !l.is_empty() && !l.starts_with('#')) {
        if let Some(h) = l.strip_prefix('@') {
            let (k, s) = h.split_once(' ').unwrap();
            v.push((Kind::parse(k).unwrap(), s.parse().unwrap(), vec![]));
        } else {
            v.last_mut().unwrap().2.push(Op::parse(l).unwrap());
        }
    }
    v
}
/// `harness traces FILE`: prints one hash per program (run in a fresh process)
pub fn print_traces(file: &str, reverse: bool) {
    let mut b = batch_parse(&std::fs::read_to_string(file).unwrap());
    if reverse {
        b.reverse();
    }
    let mut h: Vec<String> = b.iter().map(|(k, s, p)| format!("{:016x}", trace_hash(&trace(*k, *s, p)))).collect();
    if reverse {
        h.reverse();
    }
    println!("{}", h.join("\n"));
}

pub fn child_batch(dir: &std::path::Path, tag: &str, b: &[(Kind, u64, Vec<Op>)]) -> Option<String> {
    let f = dir.join(format!("batch.{tag}"));
    std::fs::write(&f, batch_text(b)).unwrap();
    let mine: Vec<String> = b.iter().map(|(k, s, p)| format!("{:016x}", trace_hash(&trace(*k, *s, p)))).collect();
    for rev in ["0", "1"] {
        let o = Command::new(std::env::current_exe().unwrap())
            .args(["traces", f.to_str().unwrap(), "--reverse", rev])
            .env("HARNESS_CHILD", "1")
            .env("UNRELATED_VARIABLE", rev.repeat(200))
            .stdin(Stdio::null())
            .output()
            .unwrap();
        let out = String::from_utf8_lossy(&o.stdout);
        let theirs: Vec<&str> = out.lines().collect();
        if theirs.len() != mine.len() {
            return Some(format!("a child process produced {} of {} traces: {}", theirs.len(), mine.len(), clip(&String::from_utf8_lossy(&o.stderr), 500)));
        }
        for i in 0..mine.len() {
            if mine[i] != theirs[i] {
                let _ = std::fs::remove_file(&f);
                return Some(format!(
                    "in a different process the same seed {} and program give a different trace [program: {}]",
                    b[i].1,
                    clip(&to_text(&b[i].2).replace('\n', "; "), 1000)
                ));
            }
        }
    }
    let _ = std::fs::remove_file(&f);
    None
}

pub fn c05(cx: &mut Ctx) {
    let mut r = cx.rng(1);
    let kinds = [Kind::Sim, Kind::QirDyn, Kind::QirStat];
    let mut batch = vec![];
    for i in 0..cx.cases(40_000) {
        if cx.time_up() {
            break;
        }
        let kind = kinds[i % 3];
        let p = random_program(&mut r, kind, 5, (6, 60));
        let seed = if r.chance(0.2) { r.below(5) as u64 } else { r.u64() };
        let aux = r.u64() >> 1;
        let body = format!("#seed {seed}\n#aux {aux}\n{}", to_text(&p));
        let k = format!("repro-{}", kind.name());
        cx.journal(&k, &body);
        if let Some(e) = repro_case(kind, seed, &p, aux) {
            let small = ddmin(&p, Duration::from_secs(15), |c| repro_case(kind, seed, &sanitize(kind, c), aux).is_some());
            let small = sanitize(kind, &small);
            let e = repro_case(kind, seed, &small, aux).unwrap_or(e);
            cx.violation(&k, &format!("#seed {seed}\n#aux {aux}\n{}", to_text(&small)), &e);
        }
        cx.n("programs", 1);
        cx.n("traces_compared", if kind == Kind::Sim { 5 } else { 4 });
        let draws = p.iter().filter(|o| matches!(o, Op::M(_) | Op::JM(_) | Op::PM(_) | Op::Mz(..) | Op::MResetZ(..) | Op::Reset(_) | Op::Release(_))).count();
        cx.n("random_draw_sites", draws as u64);
        if draws > 0 {
            cx.seen(trace_hash(&trace(kind, seed, &p)));
        }
        if cx.samples.len() < 3 && p.len() < 40 {
            cx.sample(format!("[{k}] seed {seed}: {}", to_text(&p).replace('\n', "; ")));
        }
        if batch.len() < 150 && r.chance(0.3) {
            batch.push((kind, seed, p));
        }
    }
    cx.journal("batch", &batch_text(&batch));
    if let Some(e) = child_batch(&cx.work, &format!("{}.{}", cx.flavour, cx.shard), &batch) {
        cx.violation("batch", &batch_text(&batch), &e);
    }
    cx.n("traces_compared_across_processes", 2 * batch.len() as u64);
    // a generator handed over explicitly behaves the same twice; seeds matter
    let mut strings: BTreeMap<u64, u64> = BTreeMap::new();
    let mut seeds: Vec<u64> = vec![0, 1, 2, 3, u64::MAX, u64::MAX - 1, 1 << 63, 1 << 32, (1 << 32) + 1, 0xFFFF_FFFF];
    for _ in 0..cx.cases(2000) {
        let s = r.u64();
        seeds.extend([s, s ^ 1, s.wrapping_add(1 << 32), s ^ (1 << 63), s.rotate_left(32)]);
    }
    for s in seeds {
        for kind in [Kind::Sim, Kind::QirStat] {
            cx.journal("coins", &format!("#seed {s}\n"));
            let v = coins(kind, s, 64);
            let w = v.map(|v| v.iter().fold(0u64, |a, b| a * 2 + u64::from(*b)));
            match w {
                Ok(w) => {
                    if kind == Kind::Sim {
                        if let Some(o) = strings.insert(w, s)
                            && o != s
                        {
                            cx.violation("coins", &format!("#seed {s}\n#aux {o}\n"), &format!("seeds {s} and {o} give the same 64 fair outcomes {w:016x}"));
                        }
                        cx.n("distinct_seed_strings", 1);
                    }
                }
                Err(e) => cx.violation("coins", &format!("#seed {s}\n"), &e),
            }
        }
        if cx.viols.len() >= cx.max_viols {
            break;
        }
    }
}
pub fn replay_coins(a: u64, b: u64) -> Option<String> {
    let x = coins(Kind::Sim, a, 64);
    if a == b {
        return x.err();
    }
    (x == coins(Kind::Sim, b, 64)).then(|| format!("seeds {a} and {b} give the same 64 fair outcomes"))
}

// ---- C08 -------------------------------------------------------------------------------------

/// Runs a valid prefix, then the last operation, which misuses identifiers. Must panic by the next observation.
pub fn misuse_case(p: &[Op], deferred: bool) -> Option<String> {
    let (bad, prefix) = p.split_last()?;
    let mut t = SimTarget::seeded(11);
    if let Err(e) = catch(|| {
        for o in prefix {
            let _ = t.exec(o, 0.0);
        }
    }) {
        return Some(format!("the code under test panicked in the valid prefix: {e}"));
    }
    let first = catch(|| t.exec(bad, 0.0));
    match first {
        Err(_) => None,
        Ok(ob) if !deferred => Some(format!("{} returned {ob:?} instead of failing", bad.text())),
        Ok(_) => match catch(|| t.state()) {
            Err(_) => None,
            Ok(_) => Some(format!("{} and the state snapshot after it returned instead of failing", bad.text())),
        },
    }
}

pub fn shape_case(k: usize, rows: usize, cols: usize, n: usize) -> Option<String> {
    let mut sim = quantum_sparse_sim::QuantumSim::new(None);
    let q: Vec<usize> = (0..n.max(1)).map(|_| sim.allocate()).collect();
    for i in &q {
        sim.h(*i);
    }
    let m = ndarray::Array2::from_shape_fn((rows, cols), |(i, j)| {
        num_complex::Complex64::new(if i == j { 1.0 } else { 0.0 }, 0.0)
    });
    let t: Vec<usize> = q[..k.min(q.len())].to_vec();
    match catch(|| sim.apply(&m, &t, None)) {
        Ok(()) => Some(format!("apply accepted a {rows}x{cols} matrix on {} qubits", t.len())),
        Err(_) => None,
    }
}

pub fn c08(cx: &mut Ctx) {
    let mut r = cx.rng(1);
    let g = Profile { tiny: false, w_measure: 0.4, w_observe: 0.5, ..Profile::default() };
    for i in 0..cx.cases(60_000) {
        if cx.time_up() {
            break;
        }
        // now and then among many live qubits, with identifiers and lists of hundreds
        let wide = i % 50 == 17;
        let mut p = match if wide { 9 } else { i % 4 } {
            9 => generate(&mut r, &Profile { min_q: 2, max_q: 4, idle: 330, ops: (3, 20), ..g.clone() }),
            0 => generate(&mut r, &Profile { max_q: 1, ops: (0, 6), w_swap: 0.0, ..g.clone() }),
            1 => generate(&mut r, &Profile { max_q: 5, ops: (3, 30), w_alloc: 1.0, w_release: 2.0, ..g.clone() }),
            2 => generate(&mut r, &Profile { max_q: 4, ops: (1, 12), ..g.clone() }),
            _ => {
                let mut p = generate(&mut r, &Profile { max_q: 5, ops: (3, 20), ..g.clone() });
                // release most or all of them
                let n = p.iter().filter(|o| matches!(o, Op::Alloc)).count();
                let mut ids: Vec<usize> = (0..n).collect();
                r.shuffle(&mut ids);
                ids.truncate(n - r.below(3).min(n));
                p.extend(ids.into_iter().map(Op::Release));
                p
            }
        };
        let mut live = BTreeSet::new();
        let mut gone = BTreeSet::new();
        for o in &p {
            match o {
                Op::Alloc => {
                    let q = lowest_free(&live);
                    live.insert(q);
                    gone.remove(&q);
                }
                Op::Release(q) => {
                    live.remove(q);
                    gone.insert(*q);
                }
                _ => {}
            }
        }
        let lv: Vec<usize> = live.iter().copied().collect();
        let maxid = lv.last().copied().unwrap_or(0);
        let mut bads: Vec<usize> = gone.iter().copied().collect();
        bads.extend([maxid + 1, maxid + 2 + r.below(5), 64 + r.below(100), 1000 + r.below(5000)]);
        bads.retain(|b| !live.contains(b));
        let b = *r.pick(&bads);
        let mut good = lv.clone();
        r.shuffle(&mut good);
        let gl = |k: usize| -> Vec<usize> { good.iter().copied().take(k).collect() };
        let most = if wide && r.bool() { 1 + lv.len() } else { 4 };
        if wide {
            cx.n("wide_cases", 1);
            cx.max("max_misused_live_qubits", lv.len() as f64);
        }
        let mut with_bad = gl(r.below(most));
        let at = r.below(with_bad.len() + 1);
        with_bad.insert(at, b);
        let ax = [P::X, P::Y, P::Z];
        let th = 0.3 + r.f64();
        let u = |k: usize, r: &mut Rng| U { kind: *r.pick(&[0u8, 2, 4]), k, seed: r.u64() >> 8 };
        let mut deferred = false;
        let class;
        let bad = if r.chance(0.55) || lv.is_empty() {
            class = if gone.contains(&b) { "released id" } else { "never allocated id" };
            match r.below(if lv.is_empty() { 9 } else { 14 }) {
                0 => Op::M(b),
                1 => Op::JM(with_bad),
                2 => Op::JP(with_bad),
                3 => Op::IsZero(b),
                4 => Op::Force(r.bool(), b),
                5 => Op::Release(b),
                6 => Op::Release(b),
                7 => {
                    let k = with_bad.len().min(3);
                    let t: Vec<usize> = if with_bad[..k].contains(&b) { with_bad[..k].to_vec() } else { vec![b] };
                    let k = t.len();
                    Op::Apply { u: u(k, &mut r), targets: t, ctls: None }
                }
                8 => Op::Exp { ps: with_bad.iter().map(|q| (*r.pick(&ax), *q)).collect(), th, ctls: vec![], var: 0 },
                9 => Op::Swap(b, *r.pick(&lv)),
                10 => Op::Swap(*r.pick(&lv), b),
                11 => Op::Exp { ps: vec![(*r.pick(&ax), good[0])], th, ctls: vec![b], var: 1 },
                12 => Op::Apply { u: u(1, &mut r), targets: vec![good[0]], ctls: Some(vec![b]) },
                _ => Op::Swap(b, b),
            }
        } else {
            class = "duplicate";
            let d = *r.pick(&lv);
            let mut dup = gl(r.below(most));
            dup.retain(|q| *q != d);
            for _ in 0..2 {
                let at = r.below(dup.len() + 1);
                dup.insert(at, d);
            }
            let other = good.iter().copied().find(|q| *q != d);
            // controlled form with the duplicate among controls, or between control and target
            let (ctls, t) = if let (Some(o), true) = (other, r.bool()) {
                let mut c = dup.clone();
                c.retain(|q| *q != o);
                (c, o)
            } else {
                let mut c: Vec<usize> = gl(r.below(most - 1));
                c.retain(|q| *q != d);
                let at = r.below(c.len() + 1);
                c.insert(at, d);
                (c, d)
            };
            match r.below(9) {
                0 => Op::JM(dup),
                1 => Op::JP(dup),
                2 => Op::Exp { ps: dup.iter().map(|q| (*r.pick(&ax), *q)).collect(), th, ctls: vec![], var: 0 },
                3 => Op::Exp { ps: vec![(*r.pick(&ax), t)], th, ctls, var: 1 },
                4 => {
                    if dup.len() > 4 {
                        dup = vec![d, d];
                    }
                    dup.truncate(4);
                    if !(dup.iter().filter(|q| **q == d).count() == 2) {
                        dup = vec![d, d];
                    }
                    Op::Apply { u: u(dup.len(), &mut r), targets: dup, ctls: None }
                }
                5 => {
                    // the matrix is expanded over the controls: keep a few, the offending ones among them
                    let ctls = if ctls.len() > 4 { vec![d, *r.pick(&ctls), d] } else { ctls };
                    Op::Apply { u: u(1, &mut r), targets: vec![t], ctls: Some(ctls) }
                }
                6 => {
                    deferred = true;
                    Op::Phase { ctls, th, t }
                }
                7 => {
                    deferred = true;
                    Op::Rot { p: *r.pick(&ax), th, ctls, t, var: 1 }
                }
                _ => {
                    deferred = true;
                    Op::Gate { g: *r.pick(&ALL_G), ctls, t, var: 1 }
                }
            }
        };
        let label = format!("{class} {}", bad.kind());
        p.push(bad);
        let kind = if deferred { "misuse-deferred" } else { "misuse" };
        cx.journal(kind, &to_text(&p));
        if let Some(e) = misuse_case(&p, deferred) {
            let small = ddmin(&p[..p.len() - 1], Duration::from_secs(5), |c| {
                // keep the set of live qubits
                let mut q = sanitize_dynamic(c);
                let mut l2 = BTreeSet::new();
                for o in &q {
                    match o {
                        Op::Alloc => {
                            l2.insert(lowest_free(&l2));
                        }
                        Op::Release(x) => {
                            l2.remove(x);
                        }
                        _ => {}
                    }
                }
                q.push(p.last().unwrap().clone());
                l2 == live && q.len() == c.len() + 1 && misuse_case(&q, deferred).is_some()
            });
            let mut q = small;
            q.push(p.last().unwrap().clone());
            cx.violation(kind, &to_text(&q), &format!("{e} ({label}; allocated {lv:?}; after {})", clip(&to_text(&q).replace('\n', "; "), 800)));
        }
        cx.n("misuse_calls", 1);
        cx.n(&format!("rejected_{}", label.replace(' ', "_")), 1);
        cx.seen_text(&format!("{label} live{} gone{} prev{}", lv.len(), gone.len(), p.get(p.len().wrapping_sub(2)).map_or(String::new(), Op::label)));
        if cx.samples.len() < 4 && p.len() < 14 {
            cx.sample(to_text(&p).replace('\n', "; "));
        }
    }
    for k in 1..4usize {
        for rows in 1..=17usize {
            for cols in 1..=17usize {
                if rows == 1 << k && cols == 1 << k {
                    continue;
                }
                if (rows + 17 * cols + k) % cx.shards != cx.shard {
                    continue;
                }
                let body = format!("#shape {k} {rows} {cols} 4\n");
                cx.journal("shape", &body);
                if let Some(e) = shape_case(k, rows, cols, 4) {
                    cx.violation("shape", &body, &e);
                    return;
                }
                cx.n("wrong_shapes_rejected", 1);
                cx.seen_text(&body);
            }
        }
    }
    // the same contract through the runtime interface: misuse ends the process (panics there abort)
    for i in 0..cx.cases(96) {
        let pre = generate(&mut r, &Profile { qir: true, w_phase: 0.0, max_q: 3, ops: (1, 8), w_release: 0.3, ..Profile::default() });
        let mut live = BTreeSet::new();
        let mut arrays: Vec<Option<Vec<usize>>> = vec![];
        for o in &pre {
            match o {
                Op::Alloc => {
                    live.insert(lowest_free(&live));
                }
                Op::AllocN(n) => {
                    let mut v = vec![];
                    for _ in 0..*n {
                        let q = lowest_free(&live);
                        live.insert(q);
                        v.push(q);
                    }
                    arrays.push(Some(v));
                }
                Op::Release(q) => {
                    live.remove(q);
                }
                Op::ReleaseN(i) => {
                    for q in arrays[*i].take().unwrap_or_default() {
                        live.remove(&q);
                    }
                }
                _ => {}
            }
        }
        let b = live.iter().next_back().map_or(0, |m| m + 1) + r.below(3);
        let mut p = pre;
        let lv: Vec<usize> = live.into_iter().collect();
        let d = lv.first().copied();
        p.push(match (i + cx.shard) % 4 {
            0 => Op::Release(b),
            1 if d.is_some() => Op::PM(vec![(P::Z, d.unwrap()), (P::Z, d.unwrap())]),
            2 if d.is_some() => Op::Exp { ps: vec![(P::X, d.unwrap()), (P::Y, d.unwrap())], th: 0.7, ctls: vec![], var: 0 },
            3 if d.is_some() => Op::Gate { g: G::X, ctls: vec![d.unwrap(), d.unwrap()], t: d.unwrap(), var: 3 },
            _ => Op::Release(b),
        });
        let body = to_text(&p);
        cx.journal("misuse-qir", &body);
        if let Some(e) = misuse_qir(&cx.work.join(format!("misuse.{}.{}", cx.flavour, cx.shard)), &body) {
            cx.violation("misuse-qir", &body, &e);
            return;
        }
        cx.n("misuse_calls", 1);
        cx.n("processes_ended_by_misuse", 1);
    }
}

/// Runs the program in a child process through the runtime interface: must die after the valid prefix.
pub fn misuse_qir(file: &std::path::Path, body: &str) -> Option<String> {
    std::fs::write(file, body).unwrap();
    let o = Command::new(std::env::current_exe().unwrap())
        .args(["misuse-child", file.to_str().unwrap()])
        .stdin(Stdio::null())
        .output()
        .unwrap();
    let _ = std::fs::remove_file(file);
    let out = String::from_utf8_lossy(&o.stdout);
    if !out.contains("prefix-done") {
        return Some(format!("the valid prefix failed in the child: {}", clip(&String::from_utf8_lossy(&o.stderr), 400)));
    }
    if out.contains("misuse-returned") {
        return Some(format!("the runtime accepted the misuse in: {}", body.replace('\n', "; ")));
    }
    if o.status.success() {
        return Some("the child ended normally".into());
    }
    None
}
pub fn misuse_child(file: &str) {
    use std::io::Write;
    let p = from_text(&std::fs::read_to_string(file).unwrap());
    let mut t = QirTarget::start(5, false);
    for o in &p[..p.len() - 1] {
        t.exec(o, 0.0);
    }
    println!("prefix-done");
    std::io::stdout().flush().unwrap();
    t.exec(p.last().unwrap(), 0.0);
    let _ = t.state();
    println!("misuse-returned");
}

// ---- C13 -------------------------------------------------------------------------------------

/// Concatenates shots with an initialisation between them, renumbering array handles.
pub fn join_shots(shots: &[Vec<Op>]) -> Vec<Op> {
    let mut out = vec![];
    let mut base = 0;
    for (i, s) in shots.iter().enumerate() {
        if i > 0 {
            out.push(Op::Init);
        }
        let mut n = 0;
        for o in s {
            out.push(match o {
                Op::AllocN(_) => {
                    n += 1;
                    o.clone()
                }
                Op::ReleaseN(i) => Op::ReleaseN(i + base),
                _ => o.clone(),
            });
        }
        base += n;
    }
    out
}

/// earlier shot, initialise, reseed, program: must equal the program on a fresh thread.
pub fn isolation_case(kind: Kind, seed: u64, a: &[Op], b: &[Op], seed_first: bool) -> Option<String> {
    let fresh = {
        let b = b.to_vec();
        std::thread::spawn(move || trace(kind, seed, &b)).join().unwrap_or_else(|_| vec!["thread died".into()])
    };
    let got = catch(|| {
        let mut t = QirTarget::start(seed ^ 0xABCD, kind == Kind::QirStat);
        for o in a {
            t.exec(o, 0.0);
        }
        if seed_first {
            qir_backend::set_rng_seed(seed);
        }
        qir_backend::__quantum__rt__initialize(std::ptr::null_mut());
        if !seed_first {
            qir_backend::set_rng_seed(seed);
        }
        let mut t = QirTarget::resume(kind == Kind::QirStat);
        trace_on(&mut t, b)
    })
    .unwrap_or_else(|e| vec![format!("panic {e}")]);
    diff_msg(b, &fresh, &got, "after an earlier shot and initialisation instead of on a fresh thread")
}

/// shots of one seeded sequence: identical on another thread, pairwise different
pub fn sequence_case(seed: u64, shots: &[Vec<Op>], kind: Kind) -> Option<String> {
    let p = join_shots(shots);
    let a = trace(kind, seed, &p);
    let b = other_thread(kind, seed, &p);
    if let Some(e) = diff_msg(&p, &a, &b, "run as a seeded sequence of shots on another thread") {
        return Some(e);
    }
    None
}
pub fn repeat_case(seed: u64, n: usize, flips: usize) -> Option<String> {
    let r = catch(|| {
        let mut t = QirTarget::start(seed, true);
        let mut all: BTreeMap<Vec<bool>, usize> = BTreeMap::new();
        for i in 0..n {
            let v: Vec<bool> = (0..flips)
                .map(|q| {
                    t.exec(&Op::Gate { g: G::H, ctls: vec![], t: q, var: 0 }, 0.0);
                    t.exec(&Op::M(q), 0.0) == Obs::Bool(true)
                })
                .collect();
            if let Some(j) = all.insert(v, i) {
                return Some(format!("shots {j} and {i} of one seeded run have the same {flips} fair outcomes"));
            }
            t.exec(&Op::Init, 0.0);
        }
        None
    });
    match r {
        Ok(x) => x,
        Err(e) => Some(e),
    }
}

fn split_body(body: &str) -> (Vec<Op>, Vec<Op>) {
    let (a, b) = body.split_once("---\n").unwrap();
    (from_text(a), from_text(b))
}
pub fn replay_isolation(kind: Kind, seed: u64, aux: u64, body: &str) -> Option<String> {
    let (a, b) = split_body(body);
    isolation_case(kind, seed, &a, &b, aux == 1)
}

/// a shot that leaves many qubits, wide ids or a large result register behind
fn wide_shot(r: &mut Rng, kind: Kind) -> Vec<Op> {
    let pr = Profile {
        qir: true,
        static_ids: kind == Kind::QirStat,
        max_q: 4,
        idle: *r.pick(&[0, 30, 70, 140]),
        max_result: *r.pick(&[5, 40, 250]),
        result_pool: r.chance(0.2),
        ops: (8, 50),
        w_phase: 0.0,
        w_measure: 1.5,
        w_pm: 0.5,
        w_result: 3.0,
        w_observe: 0.1,
        ..Profile::default()
    };
    generate(r, &pr)
}

pub fn c13(cx: &mut Ctx) {
    let mut r = cx.rng(1);
    let kinds = [Kind::QirDyn, Kind::QirStat];
    for i in 0..cx.cases(40_000) {
        if cx.time_up() {
            break;
        }
        // static after dynamic is avoided: both disciplines never mix in one runtime without initialisation,
        // but initialisation separates them, so the earlier shot may use either
        let ka = kinds[r.below(2)];
        let kb = kinds[i % 2];
        // one pair in twelve follows a shot with tens to hundreds of qubits or thousands of results
        let mut a = if i % 12 == 5 {
            cx.n("pairs_after_a_wide_shot", 1);
            wide_shot(&mut r, ka)
        } else {
            random_program(&mut r, ka, 5, (1, 40))
        };
        let cut = if i % 12 == 5 { a.len() - r.below(a.len() / 4 + 1) } else { r.below(a.len() + 1) };
        a.truncate(cut);
        let b = random_program(&mut r, kb, 4, (4, 40));
        let seed = r.u64();
        let sf = r.bool();
        let k = format!("isolation-{}", kb.name());
        let body = |a: &[Op], b: &[Op]| format!("#seed {seed}\n#aux {}\n{}---\n{}", u8::from(sf), to_text(a), to_text(b));
        cx.journal(&k, &body(&a, &b));
        if let Some(e) = isolation_case(kb, seed, &a, &b, sf) {
            let sa = ddmin(&a, Duration::from_secs(8), |c| {
                isolation_case(kb, seed, &sanitize(ka, c), &b, sf).is_some()
            });
            let sa = sanitize(ka, &sa);
            let sb = ddmin(&b, Duration::from_secs(8), |c| {
                isolation_case(kb, seed, &sa, &sanitize(kb, c), sf).is_some()
            });
            let sb = sanitize(kb, &sb);
            let e = isolation_case(kb, seed, &sa, &sb, sf).unwrap_or(e);
            let bd = body(&sa, &sb);
            cx.violation(&k, &bd, &format!("{e} [{}]", clip(&bd.replace('\n', "; "), 1000)));
        }
        cx.n("shot_pairs", 1);
        cx.n("steps_compared", b.len() as u64 + 1);
        let last = a.last().map_or(String::new(), Op::label);
        let first = b.iter().find(|o| !matches!(o, Op::Alloc | Op::AllocN(_))).map_or(String::new(), Op::label);
        cx.seen_text(&format!("{ka:?}{kb:?} {last} -> {first}"));
        if cx.samples.len() < 3 && a.len() + b.len() < 30 {
            cx.sample(body(&a, &b).replace('\n', "; "));
        }
        if i % 4 == 0 {
            let n = 2 + r.below(4);
            let shots: Vec<Vec<Op>> = (0..n)
                .map(|j| {
                    if i % 24 == 8 && j + 1 < n {
                        return wide_shot(&mut r, kb);
                    }
                    let mut s = random_program(&mut r, kb, 4, (2, 25));
                    let c = 1 + r.below(s.len());
                    s.truncate(c);
                    s
                })
                .collect();
            let p = join_shots(&shots);
            let kk = format!("repro-{}", kb.name());
            cx.journal(&kk, &format!("#seed {seed}\n#aux 1\n{}", to_text(&p)));
            if let Some(e) = sequence_case(seed, &shots, kb) {
                cx.violation(&kk, &format!("#seed {seed}\n#aux 1\n{}", to_text(&p)), &e);
            }
            // judged by the reference: every shot starts from nothing
            run_case(cx, kb, seed, &p, Opts::default());
            cx.n("multi_shot_programs", 1);
        }
    }
    for _ in 0..cx.cases(40) {
        let seed = r.u64();
        let body = format!("#seed {seed}\n");
        cx.journal("repeat", &body);
        if let Some(e) = repeat_case(seed, 400, 64) {
            cx.violation("repeat", &body, &e);
        }
        cx.n("shots_pairwise_compared", 400);
    }
}

// ---- C14 -------------------------------------------------------------------------------------

type Job = (Kind, u64, Vec<Op>);

/// Runs the jobs concurrently (one thread each) and returns their traces.
pub fn concurrently(jobs: &[Job], delay: u64) -> Vec<Vec<String>> {
    let bar = Arc::new(Barrier::new(jobs.len()));
    let hs: Vec<_> = jobs
        .iter()
        .cloned()
        .enumerate()
        .map(|(i, (k, s, p))| {
            let bar = bar.clone();
            std::thread::spawn(move || {
                let mut r = Rng::derive(delay, i as u64);
                catch(move || {
                    let mut t = make(k, s);
                    bar.wait();
                    let mut v = vec![];
                    for o in &p {
                        match r.below(6) {
                            0 => std::thread::yield_now(),
                            1 => {
                                for _ in 0..r.below(300) {
                                    std::hint::spin_loop();
                                }
                            }
                            _ => {}
                        }
                        v.push(t.exec(o, 0.0).exact());
                    }
                    let (st, n) = t.state();
                    v.push(Obs::State(st, n).exact());
                    v
                })
                .unwrap_or_else(|e| vec![format!("panic {e}")])
            })
        })
        .collect();
    hs.into_iter().map(|h| h.join().unwrap_or_else(|_| vec!["thread died".into()])).collect()
}

pub fn threads_case(jobs: &[Job], delay: u64) -> Option<String> {
    let solo: Vec<Vec<String>> = jobs.iter().map(|(k, s, p)| other_thread(*k, *s, p)).collect();
    let conc = concurrently(jobs, delay);
    for i in 0..jobs.len() {
        if let Some(e) = diff_msg(&jobs[i].2, &solo[i], &conc[i], &format!("run on thread {i} beside {} others instead of alone", jobs.len() - 1)) {
            return Some(e);
        }
    }
    None
}

/// jobs with output recorded by each thread, drained only at the end
fn recorded(i: usize, seed: u64, n: usize) -> Vec<u8> {
    buffer_output(true);
    let _ = take_output();
    qir_backend::set_rng_seed(seed);
    qir_backend::__quantum__rt__initialize(std::ptr::null_mut());
    let mut t = QirTarget::resume(true);
    for k in 0..n {
        t.exec(&Op::Gate { g: G::H, ctls: vec![], t: k % 5, var: 0 }, 0.0);
        unsafe {
            qir_backend::__quantum__rt__int_record_output((i * 1000 + k) as i64, std::ptr::null_mut());
            qir_backend::__quantum__qis__mz__body(qp(k % 5), qp(k % 7));
            qir_backend::__quantum__rt__result_record_output(qp(k % 7), std::ptr::null_mut());
            if k % 16 == 3 {
                std::thread::yield_now();
            }
        }
    }
    take_output()
}
pub fn outputs_case(n: usize, seed: u64, len: usize) -> Option<String> {
    let solo: Vec<Vec<u8>> = (0..n).map(|i| std::thread::spawn(move || recorded(i, seed + i as u64, len)).join().unwrap_or_default()).collect();
    let hs: Vec<_> = (0..n).map(|i| std::thread::spawn(move || recorded(i, seed + i as u64, len))).collect();
    let conc: Vec<Vec<u8>> = hs.into_iter().map(|h| h.join().unwrap_or_default()).collect();
    for i in 0..n {
        if solo[i] != conc[i] {
            return Some(format!(
                "thread {i} of {n} recorded different output than alone: {} bytes against {}",
                conc[i].len(),
                solo[i].len()
            ));
        }
        if solo[i].is_empty() {
            return Some("nothing was recorded".into());
        }
    }
    None
}

/// One thread's records for the shared standard output: every record line names its thread and step.
fn direct_records(i: usize, seed: u64, len: usize) {
    let mut r = Rng::derive(seed, i as u64);
    qir_backend::set_rng_seed(seed);
    qir_backend::__quantum__rt__initialize(std::ptr::null_mut());
    let mut t = QirTarget::resume(true);
    for k in 0..len {
        let pad = if r.chance(0.02) { "-".repeat(r.below(3_000)) } else { String::new() };
        let text = std::ffi::CString::new(format!("t{i}.{k}{pad}")).unwrap();
        let tag = text.as_ptr().cast_mut();
        unsafe {
            match r.below(10) {
                0 => qir_backend::__quantum__rt__int_record_output((i * 1_000_000 + k) as i64, std::ptr::null_mut()),
                1 => qir_backend::__quantum__rt__int_record_output(r.u64() as i64, tag),
                2 => qir_backend::__quantum__rt__double_record_output(r.f64() * 1e3, tag),
                3 => qir_backend::__quantum__rt__bool_record_output(r.bool(), tag),
                4 => qir_backend::__quantum__rt__array_record_output(r.below(9) as i64, tag),
                5 => qir_backend::__quantum__rt__tuple_record_output(r.below(9) as i64, tag),
                6 | 7 => {
                    let q = r.below(3);
                    t.exec(&Op::Gate { g: G::H, ctls: vec![], t: q, var: 0 }, 0.0);
                    qir_backend::__quantum__qis__mz__body(qp(q), qp(k % 7));
                    qir_backend::__quantum__rt__result_record_output(qp(k % 7), tag);
                }
                8 if k % 8 == 0 => qir_backend::__quantum__qis__dumpmachine__body(std::ptr::null_mut()),
                _ => {
                    let s = qir_backend::__quantum__rt__string_create(tag);
                    qir_backend::__quantum__rt__message(s);
                    qir_backend::__quantum__rt__string_update_reference_count(s, -1);
                }
            }
        }
    }
}
/// child process: first what every thread records alone (to the file), then all together to standard output
pub fn direct_child(n: usize, seed: u64, len: usize, file: &str) {
    let mut alone = vec![];
    for i in 0..n {
        let v = std::thread::spawn(move || {
            buffer_output(true);
            direct_records(i, seed + i as u64, len);
            take_output()
        })
        .join()
        .unwrap();
        alone.extend(format!("#thread {i}\n").into_bytes());
        alone.extend(v);
    }
    std::fs::write(file, alone).unwrap();
    let bar = Arc::new(Barrier::new(n));
    let hs: Vec<_> = (0..n)
        .map(|i| {
            let bar = bar.clone();
            std::thread::spawn(move || {
                bar.wait();
                direct_records(i, seed + i as u64, len);
            })
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
}
/// Every line on standard output is one whole line of one thread, each thread's records come in its order,
/// and nothing is missing. Lines of dumps carry no thread and are counted.
pub fn direct_parent(n: usize, seed: u64, len: usize, file: &std::path::Path) -> Result<(usize, usize), String> {
    let o = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["direct-child", &n.to_string(), &seed.to_string(), &len.to_string(), file.to_str().unwrap()])
        .stdin(std::process::Stdio::null())
        .output()
        .unwrap();
    let alone = std::fs::read_to_string(file).unwrap_or_default();
    let _ = std::fs::remove_file(file);
    if !o.status.success() {
        return Err(format!("the process ended with {:?}: {}", o.status, String::from_utf8_lossy(&o.stderr)));
    }
    let mut whose: HashMap<&str, (usize, usize)> = HashMap::new();
    let mut shared: HashMap<&str, i64> = HashMap::new();
    let (mut i, mut k) = (0, 0);
    let mut counts = vec![];
    for l in alone.lines() {
        if let Some(t) = l.strip_prefix("#thread ") {
            i = t.parse().unwrap();
            counts.push(0usize);
            k = 0;
        } else if l.starts_with("OUTPUT") || l.starts_with("INFO") {
            whose.insert(l, (i, k));
            k += 1;
            counts[i] = k;
        } else {
            *shared.entry(l).or_default() += 1;
        }
    }
    let out = String::from_utf8_lossy(&o.stdout).to_string();
    let mut next = vec![0usize; n];
    let mut switches = 0;
    let mut last = n;
    for (no, l) in out.lines().enumerate() {
        if let Some(&(t, k)) = whose.get(l) {
            if next[t] != k {
                return Err(format!("{n} threads on one standard output: line {no} is record {k} of thread {t}, whose next record is {}", next[t]));
            }
            next[t] += 1;
            switches += usize::from(t != last);
            last = t;
        } else {
            let c = shared.entry(l).or_default();
            *c -= 1;
            if *c < 0 {
                return Err(format!("{n} threads on one standard output: line {no} is no thread's line: {}", clip(l, 300)));
            }
        }
    }
    if next != counts || shared.values().any(|c| *c != 0) {
        return Err(format!("{n} threads on one standard output: {next:?} of {counts:?} records arrived, or lines of a dump are missing"));
    }
    Ok((counts.iter().sum(), switches))
}

pub fn c14(cx: &mut Ctx) {
    let mut r = cx.rng(1);
    let tsan = cx.flavour == "tsan";
    let kinds = [Kind::QirDyn, Kind::QirStat, Kind::QirDyn, Kind::Sim];
    for i in 0..cx.cases(if tsan { 1_200 } else { 3_000 }) {
        if cx.time_up() {
            break;
        }
        let n = 2 + r.below(if i % 10 == 0 { 12 } else { 4 });
        let same_seed = r.chance(0.3);
        let s0 = r.u64();
        let same_prog = r.chance(0.3);
        let mut jobs: Vec<Job> = vec![];
        for j in 0..n {
            let k = kinds[r.below(4)];
            let s = if same_seed { s0 } else { r.u64() };
            if same_prog && j > 0 {
                let (k0, _, p0) = jobs[0].clone();
                jobs.push((k0, s, p0));
            } else {
                let p = random_program(&mut r, k, 4, (10, 80));
                jobs.push((k, s, p));
            }
        }
        let delay = r.u64() >> 1;
        let body = format!("#aux {delay}\n{}", batch_text(&jobs));
        cx.journal("threads", &body);
        if let Some(e) = threads_case(&jobs, delay) {
            cx.violation("threads", &body, &e);
        }
        cx.n("thread_groups", 1);
        cx.n("threads_run", n as u64);
        cx.max("max_concurrent_threads", n as f64);
        cx.n("steps_compared", jobs.iter().map(|j| j.2.len() as u64 + 1).sum());
        cx.seen_text(&body);
        if cx.samples.len() < 2 {
            cx.sample(format!("{n} threads: {}", body.replace('\n', "; ")));
        }
    }
    for _ in 0..cx.cases(if tsan { 100 } else { 300 }) {
        if cx.time_up() {
            break;
        }
        let (n, seed, len) = (2 + r.below(8), r.u64() >> 2, 20 + r.below(300));
        let body = format!("#outputs {n} {seed} {len}\n");
        cx.journal("outputs", &body);
        if let Some(e) = outputs_case(n, seed, len) {
            cx.violation("outputs", &body, &e);
        }
        cx.n("output_groups", 1);
        cx.n("threads_run", n as u64);
        cx.seen_text(&body);
    }
    for _ in 0..cx.cases(if tsan { 12 } else { 40 }) {
        if cx.time_up() {
            break;
        }
        let (n, seed, len) = (2 + r.below(7), r.u64() >> 2, 200 + r.below(1_500));
        let body = format!("{n} {seed} {len}\n");
        cx.journal("shared-stdout", &body);
        let f = cx.work.join(format!("direct.{}.{}", cx.flavour, cx.shard));
        match direct_parent(n, seed, len, &f) {
            Ok((records, switches)) => {
                cx.n("records_on_shared_standard_output", records as u64);
                cx.n("switches_between_threads_on_standard_output", switches as u64);
            }
            Err(e) => cx.violation("shared-stdout", &body, &e),
        }
        cx.n("processes_with_shared_standard_output", 1);
        cx.seen_text(&body);
    }
}

// ---- crowds ----------------------------------------------------------------------------------

/// Registers of hundreds to thousands of qubits in basis states, judged against a table of bits: which
/// identifiers allocation hands out, every measured bit, and the whole state as one entry.
pub fn crowd_case(kind: Kind, seed: u64, size: usize, steps: usize) -> Option<String> {
    catch(|| crowd_inner(kind, seed, size, steps)).unwrap_or_else(|e| Some(format!("the code under test panicked: {e}")))
}
fn crowd_inner(kind: Kind, seed: u64, size: usize, steps: usize) -> Option<String> {
    let mut r = Rng::new(seed);
    let mut t = make(kind, seed);
    let stat = kind == Kind::QirStat;
    let mut bits: BTreeMap<usize, bool> = BTreeMap::new();
    let mut arrays: Vec<Option<Vec<usize>>> = vec![];
    let mut seen = 0usize; // static: identifiers below this exist
    let near: Vec<usize> = (0..12).map(|_| if r.bool() { r.below(size) } else { size - 1 - r.below(8.min(size)) }).collect();
    let free_ids = |bits: &BTreeMap<usize, bool>, n: usize| -> Vec<usize> { (0..).filter(|q| !bits.contains_key(q)).take(n).collect() };
    let mut trail: Vec<String> = vec![];
    macro_rules! bad {
        ($($a:tt)*) => {{
            let k = trail.len().saturating_sub(6);
            return Some(format!("{} (after {} operations, the last being {})", format!($($a)*), trail.len(), trail[k..].join("; ")));
        }};
    }
    let check_state = |t: &mut dyn Target, bits: &BTreeMap<usize, bool>, n: usize, stat: bool| -> Result<(), String> {
        let (v, m) = t.state();
        if m != n {
            return Err(format!("the state has {m} qubits, {n} exist"));
        }
        let want: Vec<u64> = if stat { bits.iter().filter(|x| *x.1).map(|x| *x.0 as u64).collect() } else { bits.values().enumerate().filter(|x| *x.1).map(|x| x.0 as u64).collect() };
        if v.len() != 1 || (v[0].1.norm() - 1.0).abs() > 1e-6 {
            return Err(format!("the state has {} entries, expected one of weight 1", v.len()));
        }
        let mut k = num_bigint::BigUint::default();
        for b in &want {
            k.set_bit(*b, true);
        }
        if v[0].0 != k {
            let d = &v[0].0 ^ &k;
            return Err(format!("bit {} of the state differs ({} of {n} bits differ)", d.trailing_zeros().unwrap_or(0), d.count_ones()));
        }
        Ok(())
    };
    for step in 0..steps {
        let live: Vec<usize> = if stat { near.clone() } else { bits.keys().copied().collect() };
        // most choices fall on the outermost identifiers
        let some = |r: &mut Rng| -> usize {
            match r.below(3) {
                0 => live[r.below(live.len())],
                1 => live[live.len() - 1 - r.below(live.len().min(6))],
                _ => live[r.below(live.len().min(70))],
            }
        };
        let c = r.below(15);
        if !stat && (live.is_empty() || c == 0 || (step < 4 && live.len() < size / 2)) {
            let n = if r.chance(0.4) { 1 } else { 1 + r.below(size) };
            if live.len() + n > size + 20 {
                continue;
            }
            let want = free_ids(&bits, n);
            let op = if n == 1 || kind == Kind::Sim { None } else { Some(Op::AllocN(n)) };
            trail.push(format!("allocate {n}"));
            let got: Vec<usize> = match &op {
                Some(op) => match t.exec(op, 0.0) {
                    Obs::Ids(v) => v,
                    o => bad!("array allocation answered {o:?}"),
                },
                None => (0..n)
                    .map(|_| match t.exec(&Op::Alloc, 0.0) {
                        Obs::Id(i) => i,
                        _ => usize::MAX,
                    })
                    .collect(),
            };
            if op.is_some() {
                arrays.push(Some(got.clone()));
            }
            if got != want {
                let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
                bad!("allocating {n} qubits gave {} identifiers that differ from the lowest free ones at position {at}: {:?} instead of {:?}", got.len(), got.get(at), want.get(at));
            }
            bits.extend(got.iter().map(|q| (*q, false)));
            continue;
        }
        let mut touch: Vec<usize> = vec![];
        match c {
            1 if !stat => {
                let open: Vec<usize> = (0..arrays.len()).filter(|i| arrays[*i].is_some()).collect();
                if !open.is_empty() && r.chance(0.4) {
                    let i = *r.pick(&open);
                    let a = arrays[i].take().unwrap();
                    trail.push(format!("release the array of {}", a.len()));
                    t.exec(&Op::ReleaseN(i), 0.0);
                    a.iter().for_each(|q| {
                        bits.remove(q);
                    });
                } else {
                    let q = some(&mut r);
                    if arrays.iter().flatten().any(|a| a.contains(&q)) {
                        continue;
                    }
                    trail.push(format!("release {q}"));
                    t.exec(&Op::Release(q), 0.0);
                    bits.remove(&q);
                }
            }
            2 | 3 | 4 => {
                let q = some(&mut r);
                trail.push(format!("x {q}"));
                t.exec(&Op::Gate { g: *r.pick(&[G::X, G::Y]), ctls: vec![], t: q, var: 0 }, 0.0);
                *bits.entry(q).or_default() ^= true;
                touch.push(q);
            }
            5 | 6 => {
                let q = some(&mut r);
                let mut ctls: Vec<usize> = (0..1 + r.below(3)).map(|_| some(&mut r)).filter(|x| *x != q).collect();
                ctls.sort_unstable();
                ctls.dedup();
                if ctls.is_empty() {
                    continue;
                }
                trail.push(format!("x {q} controlled by {ctls:?}"));
                t.exec(&Op::Gate { g: G::X, ctls: ctls.clone(), t: q, var: r.below(4) as u8 }, 0.0);
                let on = ctls.iter().all(|x| bits.get(x).copied().unwrap_or(false));
                *bits.entry(q).or_default() ^= on;
                touch.extend(ctls);
                touch.push(q);
            }
            7 => {
                let (a, b) = (some(&mut r), some(&mut r));
                trail.push(format!("swap {a} {b}"));
                t.exec(&Op::Swap(a, b), 0.0);
                let (x, y) = (bits.get(&a).copied().unwrap_or(false), bits.get(&b).copied().unwrap_or(false));
                bits.insert(a, y);
                bits.insert(b, x);
                touch.extend([a, b]);
            }
            8 => {
                let q = some(&mut r);
                let was = bits.get(&q).copied().unwrap_or(false);
                trail.push(format!("measure {q}"));
                if t.exec(&Op::M(q), 0.0) != Obs::Bool(was) {
                    bad!("qubit {q} does not measure {was}");
                }
                touch.push(q);
            }
            9 => {
                // a random bit, copied to a second qubit
                let (a, b) = (some(&mut r), some(&mut r));
                if a == b {
                    continue;
                }
                trail.push(format!("h {a}; cnot {a} {b}; measure {a} {b}"));
                t.exec(&Op::Gate { g: G::H, ctls: vec![], t: a, var: 0 }, 0.0);
                t.exec(&Op::Gate { g: G::X, ctls: vec![a], t: b, var: 0 }, 0.0);
                let (x, y) = (t.exec(&Op::M(a), 0.0), t.exec(&Op::M(b), 0.0));
                let (Obs::Bool(x), Obs::Bool(y)) = (x, y) else { bad!("no measurement result") };
                if y != (x ^ bits.get(&b).copied().unwrap_or(false)) {
                    bad!("qubit {a} measures {x} and its copy on {b} measures {y}");
                }
                bits.insert(a, x);
                bits.insert(b, y);
                touch.extend([a, b]);
            }
            // gates left pending around others, amounting to a flip (up to phase) or to nothing
            12..15 => {
                let (q, b) = (some(&mut r), some(&mut r));
                let h = Op::Gate { g: G::H, ctls: vec![], t: q, var: 0 };
                let rot = |p: P, th: f64| Op::Rot { p, th, ctls: vec![], t: q, var: 0 };
                let gate = |g: G| Op::Gate { g, ctls: vec![], t: q, var: 0 };
                use std::f64::consts::{FRAC_PI_2, PI};
                let x = 0.2 + r.f64();
                let (ops, flip): (Vec<Op>, bool) = match r.below(9) {
                    0 => (vec![h.clone(), gate(G::Z), h.clone()], true),
                    1 => (vec![h.clone(), gate(G::S), gate(G::S), h.clone()], true),
                    2 => (vec![h.clone(), rot(P::Z, x), rot(P::Z, PI - x), h.clone()], true),
                    3 => (vec![rot(P::X, x), rot(P::X, PI - x)], true),
                    4 => (vec![rot(P::Y, x), gate(G::X), rot(P::Y, x)], true),
                    5 => (vec![h.clone(), gate(G::T), gate(G::Tadj), h.clone()], false),
                    6 => (vec![rot(P::Y, FRAC_PI_2), gate(G::Z), rot(P::Y, FRAC_PI_2), gate(G::Z)], false),
                    7 if q != b => {
                        // the phase kicks back
                        let on = bits.get(&b).copied().unwrap_or(false);
                        touch.push(b);
                        (vec![h.clone(), Op::Gate { g: G::Z, ctls: vec![b], t: q, var: 0 }, h.clone()], on)
                    }
                    _ => (vec![Op::Exp { ps: vec![(P::X, q)], th: x, ctls: vec![], var: 0 }, Op::Exp { ps: vec![(P::X, q)], th: FRAC_PI_2 - x, ctls: vec![], var: 0 }], true),
                };
                trail.push(format!("{ops:?}"));
                for o in &ops {
                    t.exec(o, 0.0);
                }
                *bits.entry(q).or_default() ^= flip;
                touch.push(q);
            }
            10 if !stat && kind == Kind::Sim && live.len() <= 400 => {
                let mut v: Vec<usize> = (0..1 + r.below(9)).map(|_| some(&mut r)).collect();
                v.sort_unstable();
                v.dedup();
                let want = v.iter().filter(|q| bits[q]).count() % 2 == 1;
                trail.push(format!("parity of {v:?}"));
                if t.exec(&Op::JM(v), 0.0) != Obs::Bool(want) {
                    bad!("the parity is not {want}");
                }
            }
            _ => {
                let n = if stat { seen } else { bits.len() };
                trail.push("state".into());
                if let Err(e) = check_state(&mut *t, &bits, n, stat) {
                    bad!("{e}");
                }
            }
        }
        seen = touch.iter().fold(seen, |m, q| m.max(q + 1));
    }
    let n = if stat { seen } else { bits.len() };
    if let Err(e) = check_state(&mut *t, &bits, n, stat) {
        bad!("at the end {e}");
    }
    // release the rest: an empty simulator starts over at 0
    if !stat {
        for i in 0..arrays.len() {
            if let Some(a) = arrays[i].take() {
                t.exec(&Op::ReleaseN(i), 0.0);
                a.iter().for_each(|q| {
                    bits.remove(q);
                });
                if r.bool() {
                    break;
                }
            }
        }
        let mut rest: Vec<usize> = bits.keys().copied().filter(|q| !arrays.iter().flatten().any(|a| a.contains(q))).collect();
        if rest.len() > 300 {
            let keep = r.below(rest.len());
            rest.truncate(keep.min(300));
        }
        for q in &rest {
            t.exec(&Op::Release(*q), 0.0);
            bits.remove(q);
        }
        if let Err(e) = check_state(&mut *t, &bits, bits.len(), stat) {
            bad!("after releasing {e}");
        }
        for i in 0..arrays.len() {
            if arrays[i].take().is_some() {
                t.exec(&Op::ReleaseN(i), 0.0);
            }
        }
    }
    None
}

pub fn crowds(cx: &mut Ctx, kinds: &[Kind], total: usize) {
    let mut r = cx.rng(91);
    for _ in 0..cx.cases(total) {
        if cx.time_up() {
            break;
        }
        let kind = *r.pick(kinds);
        let size = match r.below(12) {
            0 => 1000 + r.below(2500),
            1..=3 => 250 + r.below(500),
            _ => 20 + r.below(250),
        };
        let steps = if size > 1000 { 15 + r.below(25) } else { 20 + r.below(80) };
        let seed = r.u64() >> 1;
        let body = format!("#seed {seed}\n#n {size}\n#aux {steps}\n");
        let k = format!("crowd-{}", kind.name());
        cx.journal(&k, &body);
        if let Some(e) = crowd_case(kind, seed, size, steps) {
            let (mut size, mut steps, mut e) = (size, steps, e);
            // shorter first, then fewer qubits
            for k in 1..steps {
                if let Some(x) = crowd_case(kind, seed, size, k) {
                    (steps, e) = (k, x);
                    break;
                }
            }
            for n in [20, 40, 70, 130, 260, 520, 1030] {
                if n < size && let Some(x) = crowd_case(kind, seed, n, steps) {
                    (size, e) = (n, x);
                    break;
                }
            }
            cx.violation(&k, &format!("#seed {seed}\n#n {size}\n#aux {steps}\n"), &e);
            return;
        }
        cx.n("programs_crowd", 1);
        cx.n("crowd_steps", steps as u64);
        cx.max("most_live_qubits", size as f64);
        cx.seen_text(&format!("crowd {} {}", kind.name(), size / 16));
    }
}

/// Re-executes a case of this module; None: kind not known here.
pub fn replay(kind: &str, hdr: &BTreeMap<String, String>, body: &str, work: &std::path::Path) -> Option<Option<String>> {
    let num = |k: &str| hdr.get(k).and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(0);
    let seed = num("seed");
    let n = num("n") as usize;
    let (head, tail) = kind.split_once('-').unwrap_or((kind, ""));
    let k = Kind::parse(tail.split('-').next().unwrap_or(""));
    Some(match (head, k) {
        ("twin", Some(k)) => replay_twin(k, seed, body),
        ("born", Some(k)) => {
            let m = if tail.ends_with("Shots") { Mode::Shots } else { Mode::Seeds };
            sample_case(k, m, seed, n, &from_text(body)).and_then(Result::err)
        }
        ("stream", Some(k)) => stream_case(k, seed, n),
        ("seeds", Some(k)) => across_seeds(k, seed, num("stride"), n),
        ("unseeded", _) => unseeded_case(n),
        ("rare", _) => {
            let pr = hdr.get("probability").and_then(|s| s.trim().parse().ok()).unwrap_or(0.01);
            rare_case(num("aux") as usize / 2, num("aux") % 2 == 1, pr, seed, n).err()
        }
        ("repro", Some(k)) => repro_case(k, seed, &from_text(body), num("aux")),
        ("batch", _) => child_batch(work, "replay", &batch_parse(body)),
        ("coins", _) => replay_coins(seed, if hdr.contains_key("aux") { num("aux") } else { seed }),
        ("misuse", _) if tail == "qir" => misuse_qir(&work.join("misuse.replay"), body),
        ("misuse", _) => misuse_case(&from_text(body), tail == "deferred"),
        ("shape", _) => {
            let v: Vec<usize> = hdr["shape"].split_whitespace().map(|x| x.parse().unwrap()).collect();
            shape_case(v[0], v[1], v[2], v[3])
        }
        ("isolation", Some(k)) => replay_isolation(k, seed, num("aux"), body),
        ("crowd", Some(k)) => crowd_case(k, seed, n, num("aux") as usize),
        ("repeat", _) => repeat_case(seed, 400, 64),
        ("threads", _) => threads_case(&batch_parse(body), num("aux")),
        ("shared-stdout", _) => {
            let v: Vec<u64> = body.split_whitespace().map(|x| x.parse().unwrap()).collect();
            let f = work.join(format!("direct.replay.{}", std::process::id()));
            // the schedule is not recorded: try a few times
            (0..10).find_map(|_| direct_parent(v[0] as usize, v[1], v[2] as usize, &f).err())
        }
        ("outputs", _) => {
            let v: Vec<u64> = hdr["outputs"].split_whitespace().map(|x| x.parse().unwrap()).collect();
            outputs_case(v[0] as usize, v[1], v[2] as usize)
        }
        _ => return None,
    })
}

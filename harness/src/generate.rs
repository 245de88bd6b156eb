//! Program generators. A profile says how often each kind of operation occurs; the generator tracks
//! which qubits are live so that every generated program respects the documented preconditions.
use crate::prog::{ALL_G, G, Op, U, lowest_free};
use crate::refsim::P;
use crate::rng::Rng;
use std::collections::BTreeSet;
use std::f64::consts::PI;

#[derive(Clone, Debug)]
pub struct Profile {
    pub qir: bool,
    pub static_ids: bool,
    pub min_q: usize,
    pub max_q: usize,
    pub idle: usize,   // additional live qubits that take part only in permutation/diagonal gates
    pub ops: (usize, usize),
    pub max_ctls: usize,
    pub w_h: f64,
    pub w_g1: f64,
    pub w_gc: f64,
    pub w_rot: f64,
    pub w_rotc: f64,
    pub w_phase: f64,
    pub w_exp: f64,
    pub w_apply: f64,
    pub w_swap: f64,
    pub w_alloc: f64,
    pub w_release: f64,
    pub w_measure: f64,
    pub w_joint: f64,
    pub w_force: f64,
    pub w_observe: f64,
    pub w_burst: f64,
    pub w_qirgate: f64,
    pub w_result: f64,
    pub w_pm: f64,
    pub w_ap: f64,
    pub tiny: bool,
    pub max_apply: usize,
    pub max_result: usize,
    pub burst: (usize, usize),
    pub result_pool: bool, // a few result identifiers per program, up to 200 000, instead of the first ones
    pub spread: bool, // every branch qubit is put into superposition first
}

impl Default for Profile {
    fn default() -> Self {
        Profile {
            qir: false,
            static_ids: false,
            min_q: 1,
            max_q: 5,
            idle: 0,
            ops: (4, 40),
            max_ctls: 3,
            w_h: 3.0,
            w_g1: 4.0,
            w_gc: 4.0,
            w_rot: 5.0,
            w_rotc: 2.0,
            w_phase: 0.5,
            w_exp: 0.7,
            w_apply: 0.0,
            w_swap: 0.7,
            w_alloc: 0.0,
            w_release: 0.0,
            w_measure: 0.0,
            w_joint: 0.0,
            w_force: 0.0,
            w_observe: 0.0,
            w_burst: 0.0,
            w_qirgate: 0.0,
            w_result: 0.0,
            w_pm: 0.0,
            w_ap: 0.0,
            tiny: true,
            max_apply: 3,
            max_result: 8,
            burst: (10, 60),
            result_pool: false,
            spread: false,
        }
    }
}

pub fn angle(r: &mut Rng, last: &mut f64, tiny: bool) -> f64 {
    let a = match r.below(16) {
        0 => 0.0,
        1 => PI * *r.pick(&[1.0, -1.0]),
        2 => 2.0 * PI * *r.pick(&[1.0, -1.0]),
        3 if r.chance(0.15) => PI * r.range(-600, 600) as f64,
        3 => PI * r.range(-6, 6) as f64,
        4 => PI / 2.0 * r.range(-7, 7) as f64,
        5 | 6 => PI / 4.0 * r.range(-9, 9) as f64,
        7 => match r.below(5) {
            4 => r.range(-40, 40) as f64 / *r.pick(&[1.0, 10.0, 2.0, 8.0]),
            0 => PI / *r.pick(&[3.0, 5.0, 6.0, 8.0, 12.0, 16.0]) * r.range(-24, 24) as f64,
            1 => *r.pick(&[1.0, -1.0]) * PI / (1u64 << r.below(if tiny { 20 } else { 8 })) as f64,
            _ => PI / (1u64 << r.below(8)) as f64,
        },
        8 => -*last,
        9 => PI - *last,
        10 if tiny => PI * r.range(-4, 4) as f64 + *r.pick(&[1e-11, -1e-11, 1e-12]),
        11 if tiny => match r.below(3) {
            0 => *r.pick(&[1e-11, -1e-11, 1e-3, -1e-4]),
            // small, but not negligible
            _ => *r.pick(&[1.0, -1.0]) * 10f64.powf(-2.0 - 6.0 * r.f64()) + PI * if r.chance(0.25) { r.range(-2, 2) as f64 } else { 0.0 },
        },
        // not so large that sums of angles lose their fraction
        12 if r.chance(0.15) => (r.f64() - 0.5) * 60.0 * 10f64.powf(3.0 * r.f64()),
        12 => (r.f64() - 0.5) * 60.0,
        _ => (r.f64() - 0.5) * 4.0 * PI,
    };
    *last = a;
    a
}

struct Ctx {
    live: BTreeSet<usize>,
    branch: Vec<usize>, // qubits on which branching gates are used
    arrays: Vec<Option<Vec<usize>>>,
    last: f64,
    rids: Vec<usize>,
}

fn distinct(r: &mut Rng, pool: &[usize], n: usize) -> Vec<usize> {
    let mut v = pool.to_vec();
    // partial shuffle
    let n = n.min(v.len());
    for i in 0..n {
        let j = i + r.below(v.len() - i);
        v.swap(i, j);
    }
    v.truncate(n);
    v
}

/// an identifier of any magnitude up to 200 000, often beside a power of two
pub fn wide_id(r: &mut Rng) -> usize {
    match r.below(3) {
        0 => {
            let k = 1 + r.below(17);
            r.below(1 << k)
        }
        1 => ((1usize << r.below(18)) + r.below(3)).saturating_sub(1),
        _ => r.below(200_000),
    }
}

fn nctl(r: &mut Rng, max: usize) -> usize {
    match r.below(10) {
        0..=5 => 1,
        6..=7 => 2.min(max),
        8 => 3.min(max),
        _ => 1 + r.below(max.max(1)),
    }
}

pub fn generate(r: &mut Rng, p: &Profile) -> Vec<Op> {
    let mut out = vec![];
    let mut cx = Ctx { live: BTreeSet::new(), branch: vec![], arrays: vec![], last: 0.3, rids: vec![] };
    if p.result_pool {
        cx.rids = (0..2 + r.below(7)).map(|_| wide_id(r)).collect();
    }
    let nb = p.min_q + r.below(p.max_q - p.min_q + 1);
    let total = nb + if p.idle > 0 { r.below(p.idle + 1) } else { 0 };
    if p.static_ids {
        let mut ids: Vec<usize> = (0..total.max(nb)).collect();
        if r.chance(0.3) {
            // sparse static ids
            let gap = 1 + r.below(6);
            ids = ids.iter().map(|i| i * gap + gap / 2).collect();
        }
        r.shuffle(&mut ids);
        cx.live.extend(ids.iter().copied());
        cx.branch = ids[..nb].to_vec();
    } else {
        let mut rest = total;
        while rest > 0 {
            if p.qir && rest > 1 && r.chance(0.4) {
                let n = 1 + r.below(rest);
                alloc_n(&mut cx, n, &mut out);
                rest -= n;
            } else {
                alloc(&mut cx, &mut out);
                rest -= 1;
            }
        }
        let all: Vec<usize> = cx.live.iter().copied().collect();
        cx.branch = distinct(r, &all, nb);
    }
    if p.spread {
        let b = distinct(r, &cx.branch, cx.branch.len());
        for t in b {
            match r.below(3) {
                0 => out.push(Op::Rot { p: P::Y, th: 0.4 + 2.0 * r.f64(), ctls: vec![], t, var: 0 }),
                k => {
                    out.push(Op::Gate { g: G::H, ctls: vec![], t, var: 0 });
                    if k == 1 {
                        out.push(Op::Rot { p: P::Z, th: 3.0 * r.f64(), ctls: vec![], t, var: 0 });
                    }
                }
            }
        }
        // half of the time nothing stays pending: the state has all its entries from here on
        if p.w_observe > 0.0 && r.bool() {
            out.push(if p.qir { Op::Dump } else { Op::GetState });
        }
    }
    let n = p.ops.0 + r.below(p.ops.1 - p.ops.0 + 1);
    for _ in 0..n {
        step(r, p, &mut cx, &mut out, total);
    }
    out
}

fn alloc(cx: &mut Ctx, out: &mut Vec<Op>) -> usize {
    let q = lowest_free(&cx.live);
    cx.live.insert(q);
    out.push(Op::Alloc);
    q
}
fn alloc_n(cx: &mut Ctx, n: usize, out: &mut Vec<Op>) {
    let mut v = vec![];
    for _ in 0..n {
        let q = lowest_free(&cx.live);
        cx.live.insert(q);
        v.push(q);
    }
    cx.arrays.push(Some(v));
    out.push(Op::AllocN(n));
}

fn paulis(r: &mut Rng, qs: &[usize], zonly: bool) -> Vec<(P, usize)> {
    qs.iter()
        .map(|q| {
            (
                if zonly { *r.pick(&[P::Z, P::I, P::Z]) } else { *r.pick(&[P::I, P::X, P::Y, P::Z, P::X, P::Y, P::Z]) },
                *q,
            )
        })
        .collect()
}

fn step(r: &mut Rng, p: &Profile, cx: &mut Ctx, out: &mut Vec<Op>, base_total: usize) {
    let weights = [
        p.w_h, p.w_g1, p.w_gc, p.w_rot, p.w_rotc, p.w_phase, p.w_exp, p.w_apply, p.w_swap, p.w_alloc, p.w_release,
        p.w_measure, p.w_joint, p.w_force, p.w_observe, p.w_burst, p.w_qirgate, p.w_result, p.w_pm, p.w_ap,
    ];
    let tot: f64 = weights.iter().sum();
    let mut x = r.f64() * tot;
    let mut i = 0;
    while i + 1 < weights.len() && x >= weights[i] {
        x -= weights[i];
        i += 1;
    }
    let all: Vec<usize> = cx.live.iter().copied().collect();
    cx.branch.retain(|q| cx.live.contains(q));
    if all.is_empty() && i != 9 {
        if !p.static_ids {
            let q = alloc(cx, out);
            cx.branch.push(q);
        }
        return;
    }
    if cx.branch.is_empty() && !all.is_empty() {
        cx.branch.push(*r.pick(&all));
    }
    let var = r.below(4) as u8;
    match i {
        0 => out.push(Op::Gate { g: G::H, ctls: vec![], t: *r.pick(&cx.branch), var }),
        1 => out.push(Op::Gate {
            g: *r.pick(&[G::X, G::Y, G::Z, G::X, G::Y, G::Z, G::S, G::Sadj, G::T, G::Tadj]),
            ctls: vec![],
            t: *r.pick(&all),
            var,
        }),
        2 => {
            if all.len() < 2 {
                return;
            }
            let g = *r.pick(&[G::X, G::X, G::Y, G::Z, G::Z, G::H, G::S, G::Sadj, G::T, G::Tadj]);
            let pool = if g == G::H { &cx.branch } else { &all };
            let t = *r.pick(pool);
            // prefer branch qubits as controls so that controls are in superposition
            let src: Vec<usize> = if r.chance(0.7) { cx.branch.clone() } else { all.clone() };
            let rest: Vec<usize> = src.into_iter().filter(|q| *q != t).collect();
            if rest.is_empty() {
                return;
            }
            let nc = nctl(r, p.max_ctls);
            let ctls = distinct(r, &rest, nc);
            out.push(Op::Gate { g, ctls, t, var });
        }
        3 => {
            let ax = *r.pick(&[P::X, P::X, P::Y, P::Y, P::Z]);
            let th = angle(r, &mut cx.last, p.tiny);
            let t = if ax == P::Z { *r.pick(&all) } else { *r.pick(&cx.branch) };
            out.push(Op::Rot { p: ax, th, ctls: vec![], t, var });
        }
        4 => {
            if all.len() < 2 {
                return;
            }
            let ax = *r.pick(&[P::X, P::Y, P::Z]);
            let th = angle(r, &mut cx.last, p.tiny);
            let t = if ax == P::Z { *r.pick(&all) } else { *r.pick(&cx.branch) };
            let rest: Vec<usize> = all.iter().copied().filter(|q| *q != t).collect();
            let nc = nctl(r, p.max_ctls);
            let ctls = distinct(r, &rest, nc);
            out.push(Op::Rot { p: ax, th, ctls, t, var });
        }
        5 => {
            let t = *r.pick(&all);
            let rest: Vec<usize> = all.iter().copied().filter(|q| *q != t).collect();
            let nc = r.below(p.max_ctls + 1);
            let ctls = distinct(r, &rest, nc);
            let th = angle(r, &mut cx.last, p.tiny);
            out.push(Op::Phase { ctls, th, t });
        }
        6 => {
            let zonly = r.chance(0.25);
            let pool = if zonly { &all } else { &cx.branch };
            let n = 1 + r.below(pool.len().min(4));
            let qs = distinct(r, pool, n);
            let v = paulis(r, &qs, zonly);
            let rest: Vec<usize> = all.iter().copied().filter(|q| !qs.contains(q)).collect();
            let nc = if rest.is_empty() || r.chance(0.5) { 0 } else { nctl(r, p.max_ctls) };
            let ctls = distinct(r, &rest, nc);
            let th = angle(r, &mut cx.last, p.tiny);
            out.push(Op::Exp { ps: v, th, ctls, var });
        }
        7 => {
            let kmax = p.max_apply.min(cx.branch.len());
            let k = 1 + r.below(kmax);
            let targets = distinct(r, &cx.branch, k);
            let rest: Vec<usize> = all.iter().copied().filter(|q| !targets.contains(q)).collect();
            let ctls = match r.below(4) {
                0 | 1 => None,
                2 if rest.is_empty() => Some(vec![]),
                2 => {
                    let nc = 1 + r.below(2.min(rest.len()));
                    Some(distinct(r, &rest, nc))
                }
                _ if r.chance(0.2) => Some(vec![]),
                _ => None,
            };
            let u = U { kind: *r.pick(&[0u8, 0, 1, 2, 3, 4, 5, 6]), k, seed: r.u64() >> 8 };
            out.push(Op::Apply { u, targets, ctls });
        }
        8 => {
            if all.len() < 2 && r.chance(0.9) {
                return;
            }
            if r.chance(0.05) {
                let q = *r.pick(&all);
                out.push(Op::Swap(q, q));
                return;
            }
            let v = distinct(r, &all, 2);
            if v.len() == 2 {
                out.push(Op::Swap(v[0], v[1]));
            }
        }
        9 => {
            if p.static_ids || all.len() > base_total + 3 {
                return;
            }
            if p.qir && r.chance(0.3) {
                let n = r.below(4);
                alloc_n(cx, n, out);
            } else {
                let q = alloc(cx, out);
                if r.chance(0.7) {
                    cx.branch.push(q);
                }
            }
        }
        10 => {
            if p.static_ids {
                return;
            }
            let open: Vec<usize> = (0..cx.arrays.len()).filter(|i| cx.arrays[*i].is_some()).collect();
            if !open.is_empty() && r.chance(0.3) {
                let i = *r.pick(&open);
                for q in cx.arrays[i].take().unwrap() {
                    cx.live.remove(&q);
                }
                out.push(Op::ReleaseN(i));
                return;
            }
            let owned: Vec<usize> = cx.arrays.iter().flatten().flatten().copied().collect();
            let free: Vec<usize> = all.iter().copied().filter(|q| !owned.contains(q)).collect();
            if free.is_empty() {
                return;
            }
            let q = *r.pick(&free);
            if r.chance(0.3) {
                out.push(Op::M(q));
            }
            cx.live.remove(&q);
            out.push(Op::Release(q));
        }
        11 => out.push(match r.below(if p.qir { 4 } else { 1 }) {
            1 => Op::Reset(*r.pick(&all)),
            _ => Op::M(*r.pick(&all)),
        }),
        12 => {
            let n = r.below(all.len().min(5) + 1);
            let pool = if r.bool() { &all } else { &cx.branch };
            let v = distinct(r, pool, n);
            out.push(Op::JM(v));
        }
        13 => out.push(Op::Force(r.bool(), *r.pick(&all))),
        14 => out.push(match r.below(4) {
            0 => Op::GetState,
            1 => Op::Dump,
            2 => {
                let n = r.below(all.len().min(5) + 1);
                Op::JP(distinct(r, &all, n))
            }
            _ => Op::IsZero(*r.pick(&all)),
        }),
        15 => {
            // long run of operations that can all stay in the operation queue
            let n = p.burst.0 + r.below(p.burst.1 - p.burst.0 + 1);
            let pool = distinct(r, &all, 6);
            // a controlled Z applies everything that is pending
            let cz = r.chance(0.25);
            for _ in 0..n {
                let t = *r.pick(&pool);
                let rest: Vec<usize> = pool.iter().copied().filter(|q| *q != t).collect();
                let nc = if rest.is_empty() { 0 } else { *r.pick(&[0usize, 0, 1, 1, 2]) };
                let ctls = distinct(r, &rest, nc);
                if r.chance(0.15) {
                    let th = angle(r, &mut cx.last, p.tiny);
                    out.push(Op::Rot { p: P::Z, th, ctls, t, var: 0 });
                } else {
                    let g = *r.pick(&[G::X, G::X, G::X, G::Y, G::Z, G::S, G::Sadj, G::T, G::Tadj]);
                    out.push(Op::Gate {
                        g: if g == G::Z && !cz && !ctls.is_empty() { G::S } else { g },
                        ctls,
                        t,
                        var: 0,
                    });
                }
            }
        }
        16 => {
            let th = angle(r, &mut cx.last, p.tiny);
            match r.below(6) {
                0 => out.push(Op::Sx(*r.pick(&cx.branch))),
                1 | 2 => {
                    if cx.branch.len() < 2 {
                        return;
                    }
                    let v = distinct(r, &cx.branch, 2);
                    out.push(Op::Rpp(*r.pick(&[P::X, P::Y, P::Z]), th, v[0], v[1]));
                }
                3 => out.push(Op::Barrier),
                _ => {
                    let t = *r.pick(&cx.branch);
                    let rest: Vec<usize> = all.iter().copied().filter(|q| *q != t).collect();
                    let nc = if rest.is_empty() { 0 } else { r.below(p.max_ctls + 1) };
                    let ctls = distinct(r, &rest, nc);
                    out.push(Op::RP { p: *r.pick(&[P::I, P::X, P::Y, P::Z]), th, ctls, t, var });
                }
            }
        }
        17 => {
            let rid = if !cx.rids.is_empty() {
                let k = *r.pick(&cx.rids);
                if r.chance(0.05) { k + 1 } else { k }
            } else if r.chance(0.15) { r.below(p.max_result * 40) } else { r.below(p.max_result) };
            match r.below(8) {
                0 | 1 => out.push(Op::Mz(*r.pick(&all), rid)),
                2 => out.push(Op::MResetZ(*r.pick(&all), rid)),
                3 => out.push(Op::Write(r.bool(), rid)),
                4 | 5 => out.push(Op::Read(rid, var)),
                6 => out.push(Op::Rec(rid, var)),
                _ => out.push(Op::Dump),
            }
        }
        18 => {
            let n = r.below(all.len().min(4) + 1);
            let pool = if r.chance(0.8) { &cx.branch } else { &all };
            let qs = distinct(r, pool, n);
            let v = paulis(r, &qs, false);
            out.push(Op::PM(v));
        }
        _ => {
            let n = r.below(all.len().min(4) + 1);
            let pool = if r.chance(0.8) { &cx.branch } else { &all };
            let qs = distinct(r, pool, n);
            let v = paulis(r, &qs, false);
            let tol = *r.pick(&[1e-6, 1e-3, 0.01, 0.2]);
            let off = *r.pick(&[0.0, 0.9, -0.9]) * tol;
            out.push(Op::AP(v, r.bool(), off, tol, var & 1 == 1));
        }
    }
    let _ = ALL_G;
}

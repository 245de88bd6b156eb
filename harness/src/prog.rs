//! Programs over the simulator / QIR interface: operations, a text form used in replay files, and
//! sanitising (dropping operations that misuse identifiers, so that shrinking stays inside the contract).
use crate::refsim::P;
use crate::rng::Rng;
use num_complex::Complex64 as C;
use std::collections::BTreeSet;
use std::fmt::Write;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum G {
    X,
    Y,
    Z,
    H,
    S,
    Sadj,
    T,
    Tadj,
}
pub const ALL_G: [G; 8] = [G::X, G::Y, G::Z, G::H, G::S, G::Sadj, G::T, G::Tadj];

#[derive(Clone, PartialEq, Debug)]
pub struct U {
    pub kind: u8,
    pub k: usize,
    pub seed: u64,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Op {
    Gate { g: G, ctls: Vec<usize>, t: usize, var: u8 },
    Rot { p: P, th: f64, ctls: Vec<usize>, t: usize, var: u8 },
    Phase { ctls: Vec<usize>, th: f64, t: usize },
    Exp { ps: Vec<(P, usize)>, th: f64, ctls: Vec<usize>, var: u8 },
    Apply { u: U, targets: Vec<usize>, ctls: Option<Vec<usize>> },
    Swap(usize, usize),
    Alloc,
    AllocN(usize),
    Release(usize),
    ReleaseN(usize),
    M(usize),
    JM(Vec<usize>),
    Force(bool, usize),
    GetState,
    Dump,
    JP(Vec<usize>),
    IsZero(usize),
    Seed(u64),
    // QIR only
    Sx(usize),
    Rpp(P, f64, usize, usize),
    RP { p: P, th: f64, ctls: Vec<usize>, t: usize, var: u8 },
    Mz(usize, usize),
    MResetZ(usize, usize),
    Reset(usize),
    PM(Vec<(P, usize)>),
    /// assert probability: paulis, expected-result-is-one, (offset, tol) relative to true probability, ctl form
    AP(Vec<(P, usize)>, bool, f64, f64, bool),
    Read(usize, u8),
    Write(bool, usize),
    Rec(usize, u8),
    Barrier,
    Init,
}

fn lst(v: &[usize]) -> String {
    if v.is_empty() {
        return "-".into();
    }
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
fn plst(s: &str) -> Option<Vec<usize>> {
    if s == "-" {
        return Some(vec![]);
    }
    s.split(',').map(|x| x.parse().ok()).collect()
}
fn pch(p: P) -> char {
    match p {
        P::I => 'I',
        P::X => 'X',
        P::Y => 'Y',
        P::Z => 'Z',
    }
}
fn pp(s: &str) -> Option<P> {
    Some(match s {
        "I" => P::I,
        "X" => P::X,
        "Y" => P::Y,
        "Z" => P::Z,
        _ => return None,
    })
}
fn ps(v: &[(P, usize)]) -> String {
    if v.is_empty() {
        return "-".into();
    }
    v.iter().map(|(p, q)| format!("{}{}", pch(*p), q)).collect::<Vec<_>>().join(",")
}
fn pps(s: &str) -> Option<Vec<(P, usize)>> {
    if s == "-" {
        return Some(vec![]);
    }
    s.split(',').map(|x| Some((pp(x.get(0..1)?)?, x.get(1..)?.parse().ok()?))).collect()
}
fn gname(g: G) -> &'static str {
    match g {
        G::X => "x",
        G::Y => "y",
        G::Z => "z",
        G::H => "h",
        G::S => "s",
        G::Sadj => "sadj",
        G::T => "t",
        G::Tadj => "tadj",
    }
}

impl Op {
    pub fn text(&self) -> String {
        match self {
            Op::Gate { g, ctls, t, var } => format!("{} {} {} {}", gname(*g), lst(ctls), t, var),
            Op::Rot { p, th, ctls, t, var } => format!("r {} {:?} {} {} {}", pch(*p), th, lst(ctls), t, var),
            Op::Phase { ctls, th, t } => format!("phase {} {:?} {}", lst(ctls), th, t),
            Op::Exp { ps: v, th, ctls, var } => format!("exp {} {:?} {} {}", ps(v), th, lst(ctls), var),
            Op::Apply { u, targets, ctls } => format!(
                "apply {} {} {} {} {}",
                u.kind,
                u.k,
                u.seed,
                lst(targets),
                ctls.as_ref().map_or("none".to_string(), |c| lst(c))
            ),
            Op::Swap(a, b) => format!("swap {a} {b}"),
            Op::Alloc => "alloc".into(),
            Op::AllocN(n) => format!("allocn {n}"),
            Op::Release(q) => format!("release {q}"),
            Op::ReleaseN(i) => format!("releasen {i}"),
            Op::M(q) => format!("m {q}"),
            Op::JM(v) => format!("jm {}", lst(v)),
            Op::Force(b, q) => format!("force {} {}", u8::from(*b), q),
            Op::GetState => "getstate".into(),
            Op::Dump => "dump".into(),
            Op::JP(v) => format!("jp {}", lst(v)),
            Op::IsZero(q) => format!("iszero {q}"),
            Op::Seed(s) => format!("seed {s}"),
            Op::Sx(q) => format!("sx {q}"),
            Op::Rpp(p, th, a, b) => format!("rpp {} {:?} {} {}", pch(*p), th, a, b),
            Op::RP { p, th, ctls, t, var } => format!("rp {} {:?} {} {} {}", pch(*p), th, lst(ctls), t, var),
            Op::Mz(q, r) => format!("mz {q} {r}"),
            Op::MResetZ(q, r) => format!("mresetz {q} {r}"),
            Op::Reset(q) => format!("reset {q}"),
            Op::PM(v) => format!("pm {}", ps(v)),
            Op::AP(v, one, off, tol, ctl) => {
                format!("ap {} {} {:?} {:?} {}", ps(v), u8::from(*one), off, tol, u8::from(*ctl))
            }
            Op::Read(r, v) => format!("read {r} {v}"),
            Op::Write(b, r) => format!("write {} {}", u8::from(*b), r),
            Op::Rec(r, v) => format!("rec {r} {v}"),
            Op::Barrier => "barrier".into(),
            Op::Init => "init".into(),
        }
    }
    pub fn parse(s: &str) -> Option<Op> {
        let t: Vec<&str> = s.split_whitespace().collect();
        let us = |i: usize| -> Option<usize> { t.get(i)?.parse().ok() };
        let fl = |i: usize| -> Option<f64> { t.get(i)?.parse().ok() };
        let g = match *t.first()? {
            "x" => Some(G::X),
            "y" => Some(G::Y),
            "z" => Some(G::Z),
            "h" => Some(G::H),
            "s" => Some(G::S),
            "sadj" => Some(G::Sadj),
            "t" => Some(G::T),
            "tadj" => Some(G::Tadj),
            _ => None,
        };
        if let Some(g) = g {
            return Some(Op::Gate { g, ctls: plst(t.get(1)?)?, t: us(2)?, var: us(3)? as u8 });
        }
        Some(match t[0] {
            "r" => Op::Rot { p: pp(t.get(1)?)?, th: fl(2)?, ctls: plst(t.get(3)?)?, t: us(4)?, var: us(5)? as u8 },
            "phase" => Op::Phase { ctls: plst(t.get(1)?)?, th: fl(2)?, t: us(3)? },
            "exp" => Op::Exp { ps: pps(t.get(1)?)?, th: fl(2)?, ctls: plst(t.get(3)?)?, var: us(4)? as u8 },
            "apply" => Op::Apply {
                u: U { kind: us(1)? as u8, k: us(2)?, seed: t.get(3)?.parse().ok()? },
                targets: plst(t.get(4)?)?,
                ctls: if *t.get(5)? == "none" { None } else { Some(plst(t[5])?) },
            },
            "swap" => Op::Swap(us(1)?, us(2)?),
            "alloc" => Op::Alloc,
            "allocn" => Op::AllocN(us(1)?),
            "release" => Op::Release(us(1)?),
            "releasen" => Op::ReleaseN(us(1)?),
            "m" => Op::M(us(1)?),
            "jm" => Op::JM(plst(t.get(1)?)?),
            "force" => Op::Force(us(1)? == 1, us(2)?),
            "getstate" => Op::GetState,
            "dump" => Op::Dump,
            "jp" => Op::JP(plst(t.get(1)?)?),
            "iszero" => Op::IsZero(us(1)?),
            "seed" => Op::Seed(t.get(1)?.parse().ok()?),
            "sx" => Op::Sx(us(1)?),
            "rpp" => Op::Rpp(pp(t.get(1)?)?, fl(2)?, us(3)?, us(4)?),
            "rp" => Op::RP { p: pp(t.get(1)?)?, th: fl(2)?, ctls: plst(t.get(3)?)?, t: us(4)?, var: us(5)? as u8 },
            "mz" => Op::Mz(us(1)?, us(2)?),
            "mresetz" => Op::MResetZ(us(1)?, us(2)?),
            "reset" => Op::Reset(us(1)?),
            "pm" => Op::PM(pps(t.get(1)?)?),
            "ap" => Op::AP(pps(t.get(1)?)?, us(2)? == 1, fl(3)?, fl(4)?, us(5)? == 1),
            "read" => Op::Read(us(1)?, us(2)? as u8),
            "write" => Op::Write(us(1)? == 1, us(2)?),
            "rec" => Op::Rec(us(1)?, us(2)? as u8),
            "barrier" => Op::Barrier,
            "init" => Op::Init,
            _ => return None,
        })
    }
    /// qubits named by the operation
    pub fn qubits(&self) -> Vec<usize> {
        match self {
            Op::Gate { ctls, t, .. } | Op::Rot { ctls, t, .. } | Op::Phase { ctls, t, .. } | Op::RP { ctls, t, .. } => {
                let mut v = ctls.clone();
                v.push(*t);
                v
            }
            Op::Exp { ps, ctls, .. } => {
                let mut v = ctls.clone();
                v.extend(ps.iter().map(|x| x.1));
                v
            }
            Op::Apply { targets, ctls, .. } => {
                let mut v = ctls.clone().unwrap_or_default();
                v.extend(targets);
                v
            }
            Op::Swap(a, b) | Op::Rpp(_, _, a, b) => vec![*a, *b],
            Op::Release(q) | Op::M(q) | Op::Force(_, q) | Op::IsZero(q) | Op::Sx(q) | Op::Reset(q) => vec![*q],
            Op::Mz(q, _) | Op::MResetZ(q, _) => vec![*q],
            Op::JM(v) | Op::JP(v) => v.clone(),
            Op::PM(v) | Op::AP(v, ..) => v.iter().map(|x| x.1).collect(),
            _ => vec![],
        }
    }
    pub fn is_observer(&self) -> bool {
        matches!(self, Op::GetState | Op::Dump | Op::JP(_) | Op::IsZero(_))
    }
    pub fn kind(&self) -> String {
        let t = self.text();
        let mut w = t.split_whitespace();
        let k = w.next().unwrap_or("");
        match self {
            Op::Gate { ctls, .. } => format!("{k}{}", ctls.len().min(3)),
            Op::Rot { ctls, .. } | Op::RP { ctls, .. } => format!("{k}{}{}", w.next().unwrap_or(""), ctls.len().min(3)),
            _ => k.to_string(),
        }
    }
    /// more gate-specific label including angle class, for coverage accounting
    pub fn label(&self) -> String {
        let cls = |th: f64| -> &'static str {
            let r = (th / std::f64::consts::PI).abs();
            if r < 1e-9 {
                "0"
            } else if (r - r.round()).abs() < 1e-9 {
                if (r.round() as i64) % 2 == 0 { "2pi" } else { "pi" }
            } else {
                "g"
            }
        };
        match self {
            Op::Rot { th, .. } | Op::RP { th, .. } | Op::Exp { th, .. } | Op::Phase { th, .. } | Op::Rpp(_, th, ..) => {
                format!("{}@{}", self.kind(), cls(*th))
            }
            _ => self.kind(),
        }
    }
}

pub fn to_text(p: &[Op]) -> String {
    let mut s = String::new();
    for o in p {
        let _ = writeln!(s, "{}", o.text());
    }
    s
}
pub fn from_text(s: &str) -> Vec<Op> {
    s.lines()
        .map(str::trim)
        .filter(|l| !l.is_empty() && !l.starts_with('#'))
        .map(|l| Op::parse(l).unwrap_or_else(|| panic!("bad op {l}")))
        .collect()
}

pub fn lowest_free(live: &BTreeSet<usize>) -> usize {
    (0..).find(|i| !live.contains(i)).unwrap()
}

/// Drops every operation that names a qubit that is not live (dynamic discipline).
pub fn sanitize_dynamic(p: &[Op]) -> Vec<Op> {
    let mut live = BTreeSet::new();
    let mut arrays: Vec<Option<Vec<usize>>> = vec![];
    let mut out = vec![];
    for op in p {
        match op {
            Op::Alloc => {
                live.insert(lowest_free(&live));
            }
            Op::AllocN(n) => {
                let mut v = vec![];
                for _ in 0..*n {
                    let q = lowest_free(&live);
                    live.insert(q);
                    v.push(q);
                }
                arrays.push(Some(v));
            }
            Op::Release(q) => {
                if !live.contains(q) || arrays.iter().flatten().any(|v| v.contains(q)) {
                    continue;
                }
                live.remove(q);
            }
            Op::ReleaseN(i) => match arrays.get_mut(*i).and_then(Option::take) {
                Some(v) => {
                    for q in v {
                        live.remove(&q);
                    }
                }
                None => continue,
            },
            Op::Init => {
                live.clear();
                for a in &mut arrays {
                    *a = None;
                }
            }
            _ => {
                if op.qubits().iter().any(|q| !live.contains(q)) {
                    continue;
                }
            }
        }
        out.push(op.clone());
    }
    out
}

// ---- unitaries -------------------------------------------------------------------------------

/// Row-major matrix of the described unitary.
pub fn unitary(u: &U) -> Vec<C> {
    let d = 1usize << u.k;
    let mut r = Rng::derive(u.seed, 0xA11);
    let z = C::new(0.0, 0.0);
    let one = C::new(1.0, 0.0);
    let mut m = vec![z; d * d];
    match u.kind {
        // Haar-like: Gram-Schmidt on Gaussian columns (rows here, still unitary)
        0 => {
            let mut rows: Vec<Vec<C>> = vec![];
            while rows.len() < d {
                let mut v: Vec<C> = (0..d).map(|_| C::new(r.gauss(), r.gauss())).collect();
                for _ in 0..2 {
                    for w in &rows {
                        let ip: C = w.iter().zip(&v).map(|(a, b)| a.conj() * b).sum();
                        for (x, a) in v.iter_mut().zip(w) {
                            *x -= ip * a;
                        }
                    }
                }
                let n = v.iter().map(|x| x.norm_sqr()).sum::<f64>().sqrt();
                if n > 1e-3 {
                    for x in &mut v {
                        *x /= n;
                    }
                    rows.push(v);
                }
            }
            for (i, row) in rows.iter().enumerate() {
                for (j, x) in row.iter().enumerate() {
                    m[i * d + j] = *x;
                }
            }
        }
        // permutation with phases
        1 => {
            let mut p: Vec<usize> = (0..d).collect();
            r.shuffle(&mut p);
            for (i, j) in p.iter().enumerate() {
                m[i * d + j] = *r.pick(&[one, -one, C::new(0.0, 1.0), C::new(0.0, -1.0)]);
            }
        }
        // plain permutation
        2 => {
            let mut p: Vec<usize> = (0..d).collect();
            r.shuffle(&mut p);
            for (i, j) in p.iter().enumerate() {
                m[i * d + j] = one;
            }
        }
        // diagonal phases
        3 => {
            for i in 0..d {
                let t = r.f64() * 6.3;
                m[i * d + i] = C::new(t.cos(), t.sin());
            }
        }
        // Hadamard on all
        4 => {
            let s = 1.0 / (d as f64).sqrt();
            for i in 0..d {
                for j in 0..d {
                    m[i * d + j] = C::new(if (i & j).count_ones() & 1 == 1 { -s } else { s }, 0.0);
                }
            }
        }
        // one Givens rotation between two basis states
        5 => {
            for i in 0..d {
                m[i * d + i] = one;
            }
            let a = r.below(d);
            let b = (a + 1 + r.below(d - 1)) % d;
            let t = r.f64() * 6.3;
            m[a * d + a] = C::new(t.cos(), 0.0);
            m[b * d + b] = C::new(t.cos(), 0.0);
            m[a * d + b] = C::new(0.0, t.sin());
            m[b * d + a] = C::new(0.0, t.sin());
        }
        // identity
        _ => {
            for i in 0..d {
                m[i * d + i] = one;
            }
        }
    }
    m
}

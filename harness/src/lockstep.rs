//! Online monitor: runs a program on the real code and on the reference model in lock step and judges
//! every observation the real code makes available (outcomes, probabilities, identifiers, states, text).
use crate::prog::{G, Op, lowest_free, unitary};
use crate::refsim::*;
use num_bigint::BigUint;
use num_complex::Complex64 as C;
use std::collections::{BTreeMap, BTreeSet, HashSet};

#[derive(Clone, Debug, PartialEq)]
pub enum Obs {
    None,
    Bool(bool),
    F(f64),
    Id(usize),
    Ids(Vec<usize>),
    State(Vec<(BigUint, C)>, usize),
    Text(String),
}

impl Obs {
    /// exact (bit level) rendering used for determinism comparisons
    pub fn exact(&self) -> String {
        match self {
            Obs::F(f) => format!("F{:016x}", f.to_bits()),
            Obs::State(v, n) => {
                let mut s = format!("S{n}");
                for (k, a) in v {
                    s.push_str(&format!(" {k}:{:016x}:{:016x}", a.re.to_bits(), a.im.to_bits()));
                }
                s
            }
            o => format!("{o:?}"),
        }
    }
}

pub trait Target {
    /// Executes one operation on the real code. `prob` is only used by probability assertions.
    fn exec(&mut self, op: &Op, prob: f64) -> Obs;
    fn state(&mut self) -> (Vec<(BigUint, C)>, usize);
    fn is_static(&self) -> bool {
        false
    }
}

#[derive(Clone)]
pub struct Hyp {
    pub st: RefState,
    pub grow: f64,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub ops: u64,
    pub state_checks: u64,
    pub outcome_checks: u64,
    pub prob_checks: u64,
    pub record_checks: u64,
    pub assertions: u64,
    pub max_nnz: usize,
    pub max_live: usize,
    pub max_run_between_obs: usize,
    pub random_outcomes: u64,
    pub branches_resolved: u64,
    pub inconclusive: u64,
    pub worst_diff: f64,
    pub triples: HashSet<u64>,
}

impl Stats {
    pub fn merge(&mut self, o: &Stats) {
        self.ops += o.ops;
        self.state_checks += o.state_checks;
        self.outcome_checks += o.outcome_checks;
        self.prob_checks += o.prob_checks;
        self.record_checks += o.record_checks;
        self.assertions += o.assertions;
        self.max_nnz = self.max_nnz.max(o.max_nnz);
        self.max_live = self.max_live.max(o.max_live);
        self.max_run_between_obs = self.max_run_between_obs.max(o.max_run_between_obs);
        self.random_outcomes += o.random_outcomes;
        self.branches_resolved += o.branches_resolved;
        self.inconclusive += o.inconclusive;
        self.worst_diff = self.worst_diff.max(o.worst_diff);
        self.triples.extend(&o.triples);
    }
}

pub struct Outcome {
    pub violation: Option<(usize, String)>,
    pub obs: Vec<Obs>,
    pub stats: Stats,
    pub final_hyps: Vec<Hyp>,
    pub executed: usize,
}

#[derive(Clone, Copy)]
pub struct Opts {
    pub nnz_cap: usize,
    pub final_state: bool,
    pub keep_obs: bool,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { nnz_cap: 3000, final_state: true, keep_obs: false }
    }
}

const TOL: f64 = 1e-7;
/// Entries of zero amplitude are judged only by the check of that property (C09).
pub static STRICT_ZERO: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub const MIN_AMP: f64 = 1e-14;

pub fn g_matrix(g: G) -> M2 {
    let r = 0.5f64.sqrt();
    match g {
        G::X => m_x(),
        G::Y => m_y(),
        G::Z => m_phase(c(-1., 0.)),
        G::H => m_h(),
        G::S => m_phase(c(0., 1.)),
        G::Sadj => m_phase(c(0., -1.)),
        G::T => m_phase(c(r, r)),
        G::Tadj => m_phase(c(r, -r)),
    }
}

/// Applies a unitary op to the reference; false if op is not a unitary.
pub fn ref_unitary(s: &mut RefState, op: &Op) -> bool {
    match op {
        Op::Gate { g, ctls, t, .. } => s.apply1(&g_matrix(*g), ctls, *t),
        Op::Rot { p, th, ctls, t, .. } => s.apply1(&m_rot(*p, *th), ctls, *t),
        Op::Phase { ctls, th, t } => s.apply1(&m_phase(c(th.cos(), th.sin())), ctls, *t),
        Op::Exp { ps, th, ctls, .. } => s.lin_pauli(c(th.cos(), 0.), c(0., th.sin()), ps, ctls),
        Op::Apply { u, targets, ctls } => {
            s.apply_k(&unitary(u), targets, ctls.as_deref().unwrap_or(&[]));
        }
        Op::Swap(a, b) => s.swap(*a, *b),
        Op::Sx(q) => s.apply1(&m_sx(), &[], *q),
        Op::Rpp(p, th, a, b) => {
            s.lin_pauli(c((th / 2.0).cos(), 0.), c(0., -(th / 2.0).sin()), &[(*p, *a), (*p, *b)], &[]);
        }
        // var & 1: adjoint
        Op::RP { p, th, ctls, t, var } => {
            let th = if var & 1 == 1 { -th } else { *th };
            s.apply1(&m_rot(*p, th), ctls, *t);
        }
        Op::Barrier => {}
        _ => return false,
    }
    true
}

pub struct Monitor {
    pub hyps: Vec<Hyp>,
    pub live: BTreeSet<usize>,
    pub arrays: Vec<Option<Vec<usize>>>,
    pub results: BTreeMap<usize, bool>,
    pub res_len: usize,
    pub stat: Stats,
    last_on: BTreeMap<usize, (u64, u64)>,
    run: usize,
    is_static: bool,
    optional: usize,
}

fn h(s: &str) -> u64 {
    let mut x = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        x = (x ^ u64::from(b)).wrapping_mul(0x100_0000_01b3);
    }
    x
}
pub fn hash_text(s: &str) -> u64 {
    h(s)
}

impl Monitor {
    pub fn new(is_static: bool) -> Self {
        Monitor {
            hyps: vec![Hyp { st: RefState::default(), grow: 1.0 }],
            live: BTreeSet::new(),
            arrays: vec![],
            results: BTreeMap::new(),
            res_len: 0,
            stat: Stats::default(),
            last_on: BTreeMap::new(),
            run: 0,
            is_static,
            optional: 0,
        }
    }

    fn touch_static(&mut self, op: &Op) {
        if self.is_static {
            // identity factors do not use their qubit; the runtime may or may not bring it into existence
            let used: Vec<usize> = match op {
                Op::PM(v) | Op::AP(v, ..) | Op::Exp { ps: v, .. } => {
                    v.iter().filter(|x| x.0 != P::I).map(|x| x.1).collect()
                }
                Op::RP { p: P::I, .. } | Op::JP(_) => vec![],
                _ => op.qubits(),
            };
            if let Some(m) = op.qubits().into_iter().max() {
                self.optional = self.optional.max(m + 1);
            }
            if let Some(m) = used.into_iter().max() {
                for q in 0..=m {
                    self.live.insert(q);
                }
            }
        }
    }

    fn dedupe(&mut self) {
        if self.hyps.len() < 2 {
            return;
        }
        let mut keep: Vec<Hyp> = vec![];
        for x in self.hyps.drain(..) {
            if !keep.iter().any(|k| max_diff_up_to_phase(&k.st.amp, &x.st) < 1e-11) {
                keep.push(x);
            }
        }
        self.hyps = keep;
    }

    fn note(&mut self, op: &Op) {
        self.stat.ops += 1;
        self.stat.max_live = self.stat.max_live.max(self.live.len());
        self.run = if op.is_observer() || matches!(op, Op::M(_) | Op::JM(_)) { 0 } else { self.run + 1 };
        self.stat.max_run_between_obs = self.stat.max_run_between_obs.max(self.run);
        let l = h(&op.label());
        for (i, q) in op.qubits().into_iter().enumerate().take(4) {
            let e = self.last_on.entry(q).or_insert((0, 0));
            let tr = e.0.rotate_left(7) ^ e.1.rotate_left(21) ^ l ^ (i as u64);
            self.stat.triples.insert(tr);
            *e = (e.1, l);
        }
    }

    /// Judges a raw state; keeps only the hypotheses it agrees with.
    pub fn check_state(&mut self, raw: &[(BigUint, C)], n: usize) -> Result<(), String> {
        self.stat.state_checks += 1;
        if self.is_static && n > self.live.len() && n <= self.optional {
            self.live.extend(0..n);
        }
        if n != self.live.len() {
            return Err(format!("state reports {n} qubits, {} are allocated", self.live.len()));
        }
        let ids: Vec<usize> = self.live.iter().copied().collect();
        let mut m = Map::default();
        let mut norm = 0.0;
        for (i, (k, a)) in raw.iter().enumerate() {
            if i > 0 && raw[i - 1].0 >= *k {
                return Err(format!("state entries not strictly increasing: {} then {}", raw[i - 1].0, k));
            }
            if k.bits() > n as u64 {
                return Err(format!("state entry {k} has bits beyond the {n} allocated qubits"));
            }
            if !(a.re.is_finite() && a.im.is_finite()) {
                return Err(format!("amplitude of {k} is not finite: {a}"));
            }
            if a.norm() < MIN_AMP && STRICT_ZERO.load(std::sync::atomic::Ordering::Relaxed) {
                return Err(format!("state lists {k} with zero amplitude ({a:e})"));
            }
            norm += a.norm_sqr();
            let mut key = Key::ZERO;
            for (d, w) in k.to_u64_digits().into_iter().enumerate() {
                let mut w = w;
                while w != 0 {
                    let b = w.trailing_zeros() as usize;
                    key = key.set(ids[d * 64 + b], true);
                    w &= w - 1;
                }
            }
            m.insert(key, *a);
        }
        let g = self.hyps.iter().map(|h| h.grow).fold(1.0, f64::max);
        if (norm - 1.0).abs() > TOL * g {
            return Err(format!("squared amplitudes sum to {norm}"));
        }
        let diffs: Vec<f64> = self.hyps.iter().map(|h| max_diff_up_to_phase(&m, &h.st)).collect();
        let n0 = self.hyps.len();
        let ok: Vec<bool> = diffs.iter().zip(&self.hyps).map(|(d, h)| *d <= TOL * h.grow).collect();
        if ok.iter().any(|b| *b) {
            let worst = diffs.iter().zip(&ok).filter(|x| *x.1).map(|x| *x.0).fold(0.0, f64::max);
            self.stat.worst_diff = self.stat.worst_diff.max(worst);
            // every branch that agrees stays (two may be closer to each other than the tolerance), the closest first
            if n0 > 1 {
                let mut kept: Vec<(f64, Hyp)> =
                    self.hyps.drain(..).zip(&diffs).zip(&ok).filter(|x| *x.1).map(|((h, d), _)| (*d, h)).collect();
                kept.sort_by(|a, b| a.0.total_cmp(&b.0));
                kept.truncate(8);
                self.hyps = kept.into_iter().map(|x| x.1).collect();
                if self.hyps.len() == 1 {
                    self.stat.branches_resolved += 1;
                }
            }
            Ok(())
        } else {
            let best = diffs.iter().copied().fold(f64::INFINITY, f64::min);
            let h = &self.hyps[0];
            let mut want: Vec<_> = h.st.amp.iter().collect();
            want.sort_by(|a, b| a.0.cmp(b.0));
            let w: Vec<String> =
                want.iter().take(8).map(|(k, a)| format!("{:?}:{:.6}{:+.6}i", k.bits(), a.re, a.im)).collect();
            let mut got: Vec<_> = m.iter().collect();
            got.sort_by(|a, b| a.0.cmp(b.0));
            let o: Vec<String> =
                got.iter().take(8).map(|(k, a)| format!("{:?}:{:.6}{:+.6}i", k.bits(), a.re, a.im)).collect();
            Err(format!(
                "state differs from the reference by {best:e} (up to global phase, {n0} branch(es)); expected [{}] got [{}]",
                w.join(" "),
                o.join(" ")
            ))
        }
    }

    fn filter_outcome<FP, FJ>(&mut self, b: bool, prob: FP, proj: FJ, what: &str) -> Result<(), String>
    where
        FP: Fn(&RefState) -> f64,
        FJ: Fn(&mut RefState, bool) -> bool,
    {
        self.stat.outcome_checks += 1;
        let mut keep = vec![];
        let mut seen = vec![];
        let mut random = false;
        for mut hy in self.hyps.drain(..) {
            let p1 = prob(&hy.st);
            let p = if b { p1 } else { 1.0 - p1 };
            seen.push(p);
            random |= p > 1e-6 && p < 1.0 - 1e-6;
            if p > 1e-11 && proj(&mut hy.st, b) {
                hy.grow = (hy.grow / p.min(1.0).sqrt()).max(1.0);
                keep.push(hy);
            }
        }
        self.hyps = keep;
        if random {
            self.stat.random_outcomes += 1;
        }
        if self.hyps.is_empty() {
            return Err(format!("{what} returned {} whose probability is {seen:?}", u8::from(b)));
        }
        self.dedupe();
        Ok(())
    }

    fn check_prob(&mut self, f: f64, qs: &[usize], val: bool, what: &str) -> Result<(), String> {
        self.stat.prob_checks += 1;
        let want: Vec<f64> = self
            .hyps
            .iter()
            .map(|h| if val { h.st.prob_odd(qs) } else { 1.0 - h.st.prob_odd(qs) })
            .collect();
        let ok: Vec<bool> = want.iter().zip(&self.hyps).map(|(w, h)| (w - f).abs() <= TOL * h.grow).collect();
        if !ok.iter().any(|b| *b) {
            return Err(format!("{what} reported {f}, expected {want:?}"));
        }
        let mut it = ok.iter();
        self.hyps.retain(|_| *it.next().unwrap());
        Ok(())
    }

    pub fn assert_prob(&self, ps: &[(P, usize)], one: bool) -> f64 {
        let p = self.hyps[0].st.prob_pauli_minus(ps);
        if one { p } else { 1.0 - p }
    }

    pub fn ref_release(&mut self, q: usize) {
        if self.live.len() == 1 {
            self.hyps = vec![Hyp { st: RefState::default(), grow: 1.0 }];
        } else {
            let mut out = vec![];
            for hy in self.hyps.drain(..) {
                let p1 = hy.st.prob_odd(&[q]);
                for b in [false, true] {
                    let p = if b { p1 } else { 1.0 - p1 };
                    if p > 1e-13 {
                        let mut n = hy.clone();
                        if n.st.project(&[q], b) {
                            n.st.clear_bit(q);
                            n.grow = (n.grow / p.min(1.0).sqrt()).max(1.0);
                            out.push(n);
                        }
                    }
                }
            }
            self.hyps = out;
            self.dedupe();
        }
        self.live.remove(&q);
        self.last_on.remove(&q);
    }

    /// Judges one executed operation against its observation. Ok(false): stop the program here (inconclusive).
    pub fn judge(&mut self, op: &Op, obs: &Obs) -> Result<bool, String> {
        self.touch_static(op);
        self.note(op);
        match op {
            Op::Alloc => {
                let want = lowest_free(&self.live);
                let Obs::Id(got) = obs else { return Err("no id".into()) };
                if *got != want {
                    return Err(format!("allocation returned id {got}, lowest free id is {want}"));
                }
                self.live.insert(want);
            }
            Op::AllocN(n) => {
                let mut want = vec![];
                for _ in 0..*n {
                    let q = lowest_free(&self.live);
                    self.live.insert(q);
                    want.push(q);
                }
                self.arrays.push(Some(want.clone()));
                let Obs::Ids(got) = obs else { return Err("no ids".into()) };
                if *got != want {
                    return Err(format!("array allocation returned ids {got:?}, lowest free ids are {want:?}"));
                }
            }
            Op::Release(q) => self.ref_release(*q),
            Op::ReleaseN(i) => {
                for q in self.arrays[*i].take().unwrap_or_default() {
                    self.ref_release(q);
                }
            }
            Op::M(q) => {
                let Obs::Bool(b) = obs else { return Err("no outcome".into()) };
                let q = [*q];
                self.filter_outcome(*b, |s| s.prob_odd(&q), |s, b| s.project(&q, b), "measurement")?;
            }
            Op::JM(v) => {
                let Obs::Bool(b) = obs else { return Err("no outcome".into()) };
                self.filter_outcome(*b, |s| s.prob_odd(v), |s, b| s.project(v, b), "joint measurement")?;
            }
            Op::Mz(q, r) | Op::MResetZ(q, r) => {
                let Obs::Bool(b) = obs else { return Err("no outcome".into()) };
                let q = [*q];
                self.filter_outcome(*b, |s| s.prob_odd(&q), |s, b| s.project(&q, b), "measurement into result")?;
                if matches!(op, Op::MResetZ(..)) {
                    for h in &mut self.hyps {
                        h.st.clear_bit(q[0]);
                    }
                    self.dedupe();
                }
                self.results.insert(*r, *b);
                self.res_len = self.res_len.max(r + 1);
            }
            Op::Reset(q) => {
                // outcome is hidden: keep both branches, then clear
                let mut out = vec![];
                for hy in self.hyps.drain(..) {
                    let p1 = hy.st.prob_odd(&[*q]);
                    for b in [false, true] {
                        let p = if b { p1 } else { 1.0 - p1 };
                        if p > 1e-13 {
                            let mut n = hy.clone();
                            if n.st.project(&[*q], b) {
                                n.st.clear_bit(*q);
                                n.grow = (n.grow / p.min(1.0).sqrt()).max(1.0);
                                out.push(n);
                            }
                        }
                    }
                }
                self.hyps = out;
                self.dedupe();
            }
            Op::PM(v) => {
                let Obs::Bool(b) = obs else { return Err("no outcome".into()) };
                let v: Vec<(P, usize)> = v.iter().copied().filter(|x| x.0 != P::I).collect();
                self.filter_outcome(
                    *b,
                    |s| s.prob_pauli_minus(&v),
                    |s, b| s.project_pauli(&v, b),
                    "Pauli-basis measurement",
                )?;
            }
            Op::Force(val, q) => {
                let Obs::F(f) = obs else { return Err("no probability".into()) };
                self.check_prob(*f, &[*q], *val, "forced collapse")?;
                let mut amb = false;
                for hy in &mut self.hyps {
                    let p1 = hy.st.prob_odd(&[*q]);
                    let p = if *val { p1 } else { 1.0 - p1 };
                    if p > 1e-12 && p < 1e-8 {
                        amb = true;
                    }
                    if p >= 1e-8 {
                        hy.st.project(&[*q], *val);
                        hy.grow = (hy.grow / p.min(1.0).sqrt()).max(1.0);
                    }
                }
                if amb {
                    self.stat.inconclusive += 1;
                    return Ok(false);
                }
                self.dedupe();
            }
            Op::JP(_) if *obs == Obs::None => {}
            Op::JP(v) => {
                let Obs::F(f) = obs else { return Err("no probability".into()) };
                self.check_prob(*f, v, true, "joint probability")?;
            }
            Op::IsZero(q) => {
                let Obs::Bool(b) = obs else { return Err("no answer".into()) };
                self.stat.prob_checks += 1;
                let ps: Vec<f64> = self.hyps.iter().map(|h| h.st.prob_odd(&[*q])).collect();
                let clear = |p: f64, g: f64| p < 1e-11 / (g * g) || p > 1e-9;
                let mut it = ps.iter();
                self.hyps.retain(|h| {
                    let p = *it.next().unwrap();
                    !clear(p, h.grow) || (p < 1e-10) == *b
                });
                if self.hyps.is_empty() {
                    return Err(format!("is-zero answered {b} where the probability of one is {ps:?}"));
                }
            }
            Op::GetState => {
                let Obs::State(v, n) = obs else { return Err("no state".into()) };
                self.check_state(v, *n)?;
            }
            Op::Dump => {
                let Obs::Text(t) = obs else { return Err("no dump".into()) };
                let (res, v) = parse_dump(t)?;
                // the text does not state the number of qubits
                let n = self.live.len();
                self.check_state(&v, n)?;
                if let Some(bits) = res {
                    self.stat.record_checks += 1;
                    let want: Vec<bool> =
                        (0..self.res_len.max(bits.len())).map(|r| self.results.get(&r).copied().unwrap_or(false)).collect();
                    // the dump may show trailing never-stored identifiers, but what it shows must be right
                    // and every stored identifier must be shown
                    if bits.len() < self.res_len || bits.iter().zip(&want).any(|(a, b)| a != b) {
                        return Err(format!("dump shows results {bits:?}, stored results are {want:?}"));
                    }
                } else if self.res_len > 0 {
                    return Err("dump omits the stored results".into());
                }
            }
            Op::Read(r, _) => {
                let Obs::Bool(b) = obs else { return Err("no answer".into()) };
                self.stat.record_checks += 1;
                let want = self.results.get(r).copied().unwrap_or(false);
                if *b != want {
                    return Err(format!("result {r} reads {b}, last stored value is {want}"));
                }
            }
            Op::Write(b, r) => {
                self.results.insert(*r, *b);
                self.res_len = self.res_len.max(r + 1);
            }
            Op::Rec(r, var) => {
                if self.res_len == 0 {
                    return Ok(true); // no static result stored yet: dynamic interpretation, judged elsewhere
                }
                let Obs::Text(t) = obs else { return Err("no record".into()) };
                self.stat.record_checks += 1;
                let b = u8::from(self.results.get(r).copied().unwrap_or(false));
                let want = match var & 3 {
                    0 => format!("RESULT\t{b}\n"),
                    1 => format!("OUTPUT\tRESULT\t{b}\n"),
                    _ => format!("OUTPUT\tRESULT\t{b}\tr{r}\n"),
                };
                if *t != want {
                    return Err(format!("record of result {r} is {t:?}, expected {want:?}"));
                }
            }
            Op::Init => {
                self.hyps = vec![Hyp { st: RefState::default(), grow: 1.0 }];
                self.live.clear();
                self.optional = 0;
                self.results.clear();
                self.res_len = 0;
                for a in &mut self.arrays {
                    *a = None;
                }
            }
            Op::Seed(_) | Op::AP(..) => {}
            _ => {
                for hy in &mut self.hyps {
                    ref_unitary(&mut hy.st, op);
                }
            }
        }
        let nnz = self.hyps.iter().map(|h| h.st.amp.len()).max().unwrap_or(0);
        self.stat.max_nnz = self.stat.max_nnz.max(nnz);
        Ok(true)
    }

    pub fn nnz(&self) -> usize {
        self.hyps.iter().map(|h| h.st.amp.len()).sum()
    }
    pub fn too_loose(&self) -> bool {
        self.hyps.iter().any(|h| h.grow > 1e4)
    }
}

/// Parses the textual dump: optional results line, then "STATE: [ |k⟩: a+bi, ... ]".
pub fn parse_dump(t: &str) -> Result<(Option<Vec<bool>>, Vec<(BigUint, C)>), String> {
    let mut results = None;
    let mut state = None;
    for line in t.split_inclusive('\n') {
        let Some(l) = line.strip_suffix('\n') else { return Err(format!("dump line not terminated: {line:?}")) };
        if let Some(r) = l.strip_prefix("Global Results: ") {
            if results.is_some() || state.is_some() {
                return Err(format!("unexpected results line in dump {t:?}"));
            }
            let r = r.trim().trim_start_matches('[').trim_end_matches(']');
            let mut v = vec![];
            for w in r.split(',') {
                for ch in w.trim().chars() {
                    match ch {
                        '0' => v.push(false),
                        '1' => v.push(true),
                        _ => return Err(format!("results line not understood: {l:?}")),
                    }
                }
            }
            results = Some(v);
        } else if let Some(s) = l.strip_prefix("STATE: [ ").and_then(|s| s.strip_suffix(']')) {
            if state.is_some() {
                return Err("two states in one dump".into());
            }
            let mut v = vec![];
            for e in s.split(", ").filter(|e| !e.is_empty()) {
                let e2 = e.strip_prefix('|').ok_or_else(|| format!("dump entry {e:?}"))?;
                let (k, a) = e2.split_once("\u{27e9}: ").ok_or_else(|| format!("dump entry {e:?}"))?;
                let k: BigUint = k.parse().map_err(|_| format!("dump label {k:?}"))?;
                let a: C = a.parse().map_err(|_| format!("dump amplitude {a:?}"))?;
                v.push((k, a));
            }
            state = Some(v);
        } else {
            return Err(format!("dump line not understood: {l:?}"));
        }
    }
    Ok((results, state.ok_or_else(|| format!("dump has no state: {t:?}"))?))
}

pub fn run(t: &mut dyn Target, prog: &[Op], o: Opts) -> Outcome {
    let mut m = Monitor::new(t.is_static());
    run_with(t, prog, o, &mut m)
}

pub fn run_with(t: &mut dyn Target, prog: &[Op], o: Opts, m: &mut Monitor) -> Outcome {
    let mut obs_log = vec![];
    let mut executed = 0;
    let mut viol = None;
    let mut stop = false;
    for (i, op) in prog.iter().enumerate() {
        if m.nnz() > o.nnz_cap {
            break;
        }
        // hidden-outcome branches are resolved before they multiply, and before an assertion needs the exact state
        if m.hyps.len() > 8 || (m.hyps.len() > 1 && matches!(op, Op::AP(..))) {
            let (v, n) = t.state();
            if let Err(e) = m.check_state(&v, n) {
                viol = Some((i, e));
                break;
            }
        }
        if m.too_loose() {
            m.stat.inconclusive += 1;
            break;
        }
        let mut prob = 0.0;
        if let Op::AP(ps, one, off, ..) = op {
            prob = m.assert_prob(ps, *one) + off;
            if m.hyps[0].grow > 5.0 {
                continue; // tolerance would be comparable with the asserted one
            }
        }
        let ob = t.exec(op, prob);
        m.stat.assertions += u64::from(matches!(op, Op::AP(..)));
        executed = i + 1;
        let r = m.judge(op, &ob);
        if o.keep_obs {
            obs_log.push(ob);
        }
        match r {
            Ok(true) => {}
            Ok(false) => {
                stop = true;
                break;
            }
            Err(e) => {
                viol = Some((i, e));
                break;
            }
        }
    }
    if viol.is_none() && o.final_state && !stop && !m.too_loose() {
        let (v, n) = t.state();
        if let Err(e) = m.check_state(&v, n) {
            viol = Some((executed, format!("final {e}")));
        }
        if o.keep_obs {
            obs_log.push(Obs::State(v, n));
        }
    }
    Outcome { violation: viol, obs: obs_log, stats: std::mem::take(&mut m.stat), final_hyps: m.hyps.clone(), executed }
}

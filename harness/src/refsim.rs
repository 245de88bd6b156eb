//! Reference model: an eager, unoptimised sparse state-vector simulator. It knows nothing of queues,
//! qubit locations or pruning thresholds: basis states are keyed by qubit id (bit q = qubit q) and every
//! operation is a direct matrix multiplication. Written from the documented meaning of the operations.
use num_complex::Complex64 as C;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

pub const W: usize = 6; // up to 384 qubit ids

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub struct Key(pub [u64; W]);

impl Key {
    pub const ZERO: Key = Key([0; W]);
    #[inline]
    pub fn bit(&self, q: usize) -> bool {
        self.0[q >> 6] >> (q & 63) & 1 == 1
    }
    #[inline]
    pub fn set(mut self, q: usize, v: bool) -> Key {
        if v {
            self.0[q >> 6] |= 1 << (q & 63);
        } else {
            self.0[q >> 6] &= !(1 << (q & 63));
        }
        self
    }
    #[inline]
    pub fn flip(mut self, q: usize) -> Key {
        self.0[q >> 6] ^= 1 << (q & 63);
        self
    }
    pub fn bits(&self) -> Vec<usize> {
        (0..W * 64).filter(|q| self.bit(*q)).collect()
    }
}

#[derive(Default, Clone)]
pub struct H64(u64);
impl Hasher for H64 {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(23) ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    }
}
pub type Map = HashMap<Key, C, BuildHasherDefault<H64>>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum P {
    I,
    X,
    Y,
    Z,
}

const PRUNE: f64 = 1e-14;

#[derive(Clone)]
pub struct RefState {
    pub amp: Map,
}

impl Default for RefState {
    fn default() -> Self {
        let mut amp = Map::default();
        amp.insert(Key::ZERO, C::new(1.0, 0.0));
        RefState { amp }
    }
}

pub type M2 = [[C; 2]; 2];

pub fn c(re: f64, im: f64) -> C {
    C::new(re, im)
}

impl RefState {
    fn prune(m: Map) -> Map {
        m.into_iter().filter(|(_, a)| a.norm() > PRUNE).collect()
    }

    /// 2x2 matrix on qubit t, controlled on all of ctls being one.
    pub fn apply1(&mut self, m: &M2, ctls: &[usize], t: usize) {
        let mut out = Map::with_capacity_and_hasher(self.amp.len() * 2, Default::default());
        for (k, a) in &self.amp {
            if ctls.iter().all(|q| k.bit(*q)) {
                let b = usize::from(k.bit(t));
                for r in 0..2 {
                    let w = m[r][b];
                    if w != C::default() {
                        *out.entry(k.set(t, r == 1)).or_default() += w * a;
                    }
                }
            } else {
                *out.entry(*k).or_default() += a;
            }
        }
        self.amp = Self::prune(out);
    }

    /// General 2^k matrix (row major); the first target is the most significant bit of the matrix index.
    pub fn apply_k(&mut self, m: &[C], targets: &[usize], ctls: &[usize]) {
        let k = targets.len();
        let dim = 1usize << k;
        assert_eq!(m.len(), dim * dim);
        let mut out = Map::default();
        for (key, a) in &self.amp {
            if ctls.iter().all(|q| key.bit(*q)) {
                let mut col = 0usize;
                for t in targets {
                    col = col << 1 | usize::from(key.bit(*t));
                }
                for row in 0..dim {
                    let w = m[row * dim + col];
                    if w == C::default() {
                        continue;
                    }
                    let mut nk = *key;
                    for (i, t) in targets.iter().enumerate() {
                        nk = nk.set(*t, row >> (k - 1 - i) & 1 == 1);
                    }
                    *out.entry(nk).or_default() += w * a;
                }
            } else {
                *out.entry(*key).or_default() += a;
            }
        }
        self.amp = Self::prune(out);
    }

    pub fn pauli_image(k: &Key, ps: &[(P, usize)]) -> (Key, C) {
        let mut nk = *k;
        let mut f = c(1.0, 0.0);
        for (p, q) in ps {
            let b = k.bit(*q);
            match p {
                P::I => {}
                P::X => nk = nk.flip(*q),
                P::Y => {
                    nk = nk.flip(*q);
                    f *= if b { c(0.0, -1.0) } else { c(0.0, 1.0) };
                }
                P::Z => {
                    if b {
                        f = -f;
                    }
                }
            }
        }
        (nk, f)
    }

    /// alpha * I + beta * (Pauli product), controlled.
    pub fn lin_pauli(&mut self, alpha: C, beta: C, ps: &[(P, usize)], ctls: &[usize]) {
        let mut out = Map::default();
        for (k, a) in &self.amp {
            if ctls.iter().all(|q| k.bit(*q)) {
                *out.entry(*k).or_default() += alpha * a;
                let (nk, f) = Self::pauli_image(k, ps);
                *out.entry(nk).or_default() += beta * f * a;
            } else {
                *out.entry(*k).or_default() += a;
            }
        }
        self.amp = Self::prune(out);
    }

    pub fn swap(&mut self, a: usize, b: usize) {
        self.amp = self
            .amp
            .iter()
            .map(|(k, v)| (k.set(a, k.bit(b)).set(b, k.bit(a)), *v))
            .collect();
    }

    pub fn norm2(&self) -> f64 {
        self.amp.values().map(|a| a.norm_sqr()).sum()
    }

    /// probability that the parity of the given qubits is odd
    pub fn prob_odd(&self, qs: &[usize]) -> f64 {
        self.amp
            .iter()
            .filter(|(k, _)| qs.iter().filter(|q| k.bit(**q)).count() & 1 == 1)
            .map(|(_, a)| a.norm_sqr())
            .sum::<f64>()
            / self.norm2()
    }

    /// Projection onto the parity sector; false if the sector is empty.
    pub fn project(&mut self, qs: &[usize], odd: bool) -> bool {
        self.amp
            .retain(|k, _| (qs.iter().filter(|q| k.bit(**q)).count() & 1 == 1) == odd);
        self.renorm()
    }

    /// probability of eigenvalue -1 of the Pauli product
    pub fn prob_pauli_minus(&self, ps: &[(P, usize)]) -> f64 {
        // <P> = sum conj(a_{Pk}) f a_k
        let mut e = c(0.0, 0.0);
        for (k, a) in &self.amp {
            let (nk, f) = Self::pauli_image(k, ps);
            if let Some(b) = self.amp.get(&nk) {
                e += b.conj() * f * a;
            }
        }
        (1.0 - e.re / self.norm2()) / 2.0
    }

    pub fn project_pauli(&mut self, ps: &[(P, usize)], minus: bool) -> bool {
        let s = if minus { -0.5 } else { 0.5 };
        self.lin_pauli(c(0.5, 0.0), c(s, 0.0), ps, &[]);
        self.renorm()
    }

    fn renorm(&mut self) -> bool {
        let n = self.norm2();
        if n < 1e-24 {
            return false;
        }
        let s = 1.0 / n.sqrt();
        for a in self.amp.values_mut() {
            *a *= s;
        }
        true
    }

    pub fn clear_bit(&mut self, q: usize) {
        self.amp = self.amp.iter().map(|(k, v)| (k.set(q, false), *v)).collect();
    }
}

pub fn m_x() -> M2 {
    [[c(0., 0.), c(1., 0.)], [c(1., 0.), c(0., 0.)]]
}
pub fn m_y() -> M2 {
    [[c(0., 0.), c(0., -1.)], [c(0., 1.), c(0., 0.)]]
}
pub fn m_phase(p: C) -> M2 {
    [[c(1., 0.), c(0., 0.)], [c(0., 0.), p]]
}
pub fn m_h() -> M2 {
    let r = 0.5f64.sqrt();
    [[c(r, 0.), c(r, 0.)], [c(r, 0.), c(-r, 0.)]]
}
/// exp(-i theta/2 P)
pub fn m_rot(p: P, th: f64) -> M2 {
    let (cs, sn) = ((th / 2.0).cos(), (th / 2.0).sin());
    match p {
        P::I => [[c(cs, -sn), c(0., 0.)], [c(0., 0.), c(cs, -sn)]],
        P::X => [[c(cs, 0.), c(0., -sn)], [c(0., -sn), c(cs, 0.)]],
        P::Y => [[c(cs, 0.), c(-sn, 0.)], [c(sn, 0.), c(cs, 0.)]],
        P::Z => [[c(cs, -sn), c(0., 0.)], [c(0., 0.), c(cs, sn)]],
    }
}
/// sqrt(X)
pub fn m_sx() -> M2 {
    [[c(0.5, 0.5), c(0.5, -0.5)], [c(0.5, -0.5), c(0.5, 0.5)]]
}

/// Result of comparing an observed sparse vector with a reference vector up to global phase.
pub fn max_diff_up_to_phase(obs: &Map, want: &RefState) -> f64 {
    // phase from the largest reference amplitude
    let Some((k, w)) = want.amp.iter().max_by(|a, b| {
        a.1.norm_sqr()
            .total_cmp(&b.1.norm_sqr())
            .then_with(|| a.0.cmp(b.0))
    }) else {
        return f64::INFINITY;
    };
    let Some(o) = obs.get(k) else { return w.norm() };
    if o.norm() < 1e-300 {
        return w.norm();
    }
    let ph = o / w / (o.norm() / w.norm());
    let mut d: f64 = 0.0;
    for (k, w) in &want.amp {
        let o = obs.get(k).copied().unwrap_or_default();
        let e = (o - ph * w).norm();
        d = if e.is_nan() { f64::INFINITY } else { d.max(e) };
    }
    for (k, o) in obs {
        if !want.amp.contains_key(k) {
            let e = o.norm();
            d = if e.is_nan() { f64::INFINITY } else { d.max(e) };
        }
    }
    d
}

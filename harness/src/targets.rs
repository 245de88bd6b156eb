//! Adapters from program operations to the real code.
use crate::lockstep::{Obs, Target};
use crate::prog::{G, Op, unitary};
use crate::refsim::P;
use ndarray::Array2;
use num_bigint::BigUint;
use num_complex::Complex64 as C;
use qir_backend as q;
use qir_backend::exp as qe;
use quantum_sparse_sim::QuantumSim;
use quantum_sparse_sim::exp::Pauli as SP;
use std::ffi::{CString, c_char, c_void};
use std::ptr::null_mut;

pub struct SimTarget {
    pub sim: QuantumSim,
}
impl SimTarget {
    pub fn seeded(seed: u64) -> Self {
        let mut sim = QuantumSim::new(None);
        sim.set_rng_seed(seed);
        SimTarget { sim }
    }
}

fn sp(p: P) -> SP {
    match p {
        P::I => SP::I,
        P::X => SP::X,
        P::Y => SP::Y,
        P::Z => SP::Z,
    }
}

impl Target for SimTarget {
    fn exec(&mut self, op: &Op, _prob: f64) -> Obs {
        let s = &mut self.sim;
        match op {
            Op::Gate { g, ctls, t, var } => {
                let t = *t;
                if ctls.is_empty() && var & 1 == 0 {
                    match g {
                        G::X => s.x(t),
                        G::Y => s.y(t),
                        G::Z => s.z(t),
                        G::H => s.h(t),
                        G::S => s.s(t),
                        G::Sadj => s.sadj(t),
                        G::T => s.t(t),
                        G::Tadj => s.tadj(t),
                    }
                } else {
                    match g {
                        G::X => s.mcx(ctls, t),
                        G::Y => s.mcy(ctls, t),
                        G::Z => s.mcz(ctls, t),
                        G::H => s.mch(ctls, t),
                        G::S => s.mcs(ctls, t),
                        G::Sadj => s.mcsadj(ctls, t),
                        G::T => s.mct(ctls, t),
                        G::Tadj => s.mctadj(ctls, t),
                    }
                }
                Obs::None
            }
            Op::Rot { p, th, ctls, t, var } => {
                if ctls.is_empty() && var & 1 == 0 {
                    match p {
                        P::X => s.rx(*th, *t),
                        P::Y => s.ry(*th, *t),
                        P::Z => s.rz(*th, *t),
                        P::I => {}
                    }
                } else {
                    match p {
                        P::X => s.mcrx(ctls, *th, *t),
                        P::Y => s.mcry(ctls, *th, *t),
                        P::Z => s.mcrz(ctls, *th, *t),
                        P::I => {}
                    }
                }
                Obs::None
            }
            Op::Phase { ctls, th, t } => {
                s.mcphase(ctls, C::new(th.cos(), th.sin()), *t);
                Obs::None
            }
            Op::Exp { ps, th, ctls, var } => {
                let p: Vec<SP> = ps.iter().map(|x| sp(x.0)).collect();
                let t: Vec<usize> = ps.iter().map(|x| x.1).collect();
                if ctls.is_empty() && var & 1 == 0 {
                    s.exp(&p, *th, &t);
                } else {
                    s.mcexp(ctls, &p, *th, &t);
                }
                Obs::None
            }
            Op::Apply { u, targets, ctls } => {
                let d = 1usize << u.k;
                let m = Array2::from_shape_vec((d, d), unitary(u)).unwrap();
                s.apply(&m, targets, ctls.as_deref());
                Obs::None
            }
            Op::Swap(a, b) => {
                s.swap_qubit_ids(*a, *b);
                Obs::None
            }
            Op::Alloc => Obs::Id(s.allocate()),
            Op::AllocN(n) => Obs::Ids((0..*n).map(|_| s.allocate()).collect()),
            Op::Release(q) => {
                s.release(*q);
                Obs::None
            }
            Op::M(q) => Obs::Bool(s.measure(*q)),
            Op::JM(v) => Obs::Bool(s.joint_measure(v)),
            Op::Force(b, q) => Obs::F(s.force_collapse(*b, *q)),
            Op::GetState => {
                let (v, n) = s.get_state();
                Obs::State(v, n)
            }
            Op::Dump => Obs::Text(s.dump()),
            Op::JP(v) => Obs::F(s.joint_probability(v)),
            Op::IsZero(q) => Obs::Bool(s.qubit_is_zero(*q)),
            Op::Seed(x) => {
                s.set_rng_seed(*x);
                Obs::None
            }
            Op::Barrier => Obs::None,
            o => panic!("operation {o:?} is not part of the simulator interface"),
        }
    }
    fn state(&mut self) -> (Vec<(BigUint, C)>, usize) {
        self.sim.get_state()
    }
}

// ---- QIR intrinsics --------------------------------------------------------------------------

pub fn qp(i: usize) -> *mut c_void {
    i as *mut c_void
}
pub fn qpauli(p: P) -> q::Pauli {
    match p {
        P::I => q::Pauli::I,
        P::X => q::Pauli::X,
        P::Y => q::Pauli::Y,
        P::Z => q::Pauli::Z,
    }
}
pub fn qarr(v: &[usize]) -> *const q::QirArray {
    let a = q::__quantum__rt__array_create_1d(8, v.len() as u64);
    for (i, x) in v.iter().enumerate() {
        unsafe {
            q::__quantum__rt__array_get_element_ptr_1d(a, i as u64).cast::<usize>().write_unaligned(*x);
        }
    }
    a
}
pub fn parr(v: &[P]) -> *const q::QirArray {
    let a = q::__quantum__rt__array_create_1d(1, v.len() as u64);
    for (i, x) in v.iter().enumerate() {
        unsafe {
            *q::__quantum__rt__array_get_element_ptr_1d(a, i as u64) = match x {
                P::I => 0,
                P::X => 1,
                P::Z => 2,
                P::Y => 3,
            };
        }
    }
    a
}
pub fn unarr(a: *const q::QirArray) {
    unsafe { q::__quantum__rt__array_update_reference_count(a, -1) }
}
pub fn qstr(s: &[u8]) -> *const CString {
    let c = CString::new(s).unwrap();
    unsafe { q::__quantum__rt__string_create(c.as_ptr() as *mut c_char) }
}
/// tuple of 8-byte words
pub fn tup(words: &[u64]) -> *mut *const Vec<u8> {
    let t = q::__quantum__rt__tuple_create(8 * words.len() as u64);
    for (i, w) in words.iter().enumerate() {
        unsafe { t.cast::<u64>().add(i).write_unaligned(*w) }
    }
    t
}
pub fn untup(t: *mut *const Vec<u8>) {
    unsafe { q::__quantum__rt__tuple_update_reference_count(t, -1) }
}

pub fn take_output() -> Vec<u8> {
    q::OUTPUT.with(|o| o.borrow_mut().drain().collect())
}
pub fn buffer_output(on: bool) {
    q::OUTPUT.with(|o| o.borrow_mut().use_std_out(!on));
}

#[derive(Default)]
pub struct QirTarget {
    pub stat: bool,
    pub arrays: Vec<Option<(*const q::QirArray, bool)>>,
}

impl QirTarget {
    /// fresh runtime with buffered output
    pub fn start(seed: u64, stat: bool) -> Self {
        buffer_output(true);
        let _ = take_output();
        q::set_rng_seed(seed);
        q::__quantum__rt__initialize(null_mut());
        QirTarget { stat, arrays: vec![] }
    }
    pub fn resume(stat: bool) -> Self {
        QirTarget { stat, arrays: vec![] }
    }
}

pub fn ctl_gate(g: G, ctls: &[usize], t: usize, var: u8) {
    use G::*;
    let qt = qp(t);
    unsafe {
        if ctls.is_empty() && var & 1 == 0 {
            match g {
                X => q::__quantum__qis__x__body(qt),
                Y => q::__quantum__qis__y__body(qt),
                Z => q::__quantum__qis__z__body(qt),
                H => q::__quantum__qis__h__body(qt),
                S => q::__quantum__qis__s__body(qt),
                Sadj => q::__quantum__qis__s__adj(qt),
                T => q::__quantum__qis__t__body(qt),
                Tadj => q::__quantum__qis__t__adj(qt),
            }
            return;
        }
        match (g, ctls.len(), var & 3) {
            (X, 1, 0) => return q::__quantum__qis__cnot__body(qp(ctls[0]), qt),
            (X, 1, 1) => return q::__quantum__qis__cx__body(qp(ctls[0]), qt),
            (X, 2, 0 | 1) => return q::__quantum__qis__ccx__body(qp(ctls[0]), qp(ctls[1]), qt),
            (Y, 1, 0 | 1) => return q::__quantum__qis__cy__body(qp(ctls[0]), qt),
            (Z, 1, 0 | 1) => return q::__quantum__qis__cz__body(qp(ctls[0]), qt),
            _ => {}
        }
        let a = qarr(ctls);
        match g {
            X => q::__quantum__qis__x__ctl(a, qt),
            Y => q::__quantum__qis__y__ctl(a, qt),
            Z => q::__quantum__qis__z__ctl(a, qt),
            H => q::__quantum__qis__h__ctl(a, qt),
            S => q::__quantum__qis__s__ctl(a, qt),
            Sadj => q::__quantum__qis__s__ctladj(a, qt),
            T => q::__quantum__qis__t__ctl(a, qt),
            Tadj => q::__quantum__qis__t__ctladj(a, qt),
        }
        unarr(a);
    }
}

fn is_one(r: *mut c_void) -> Obs {
    let one = q::result_bool::__quantum__rt__result_equal(r, q::result_bool::__quantum__rt__result_get_one());
    let zero = q::result_bool::__quantum__rt__result_equal(r, q::result_bool::__quantum__rt__result_get_zero());
    if one == zero {
        return Obs::Text(format!("result is neither or both of One and Zero (one {one} zero {zero})"));
    }
    Obs::Bool(one)
}

impl Target for QirTarget {
    fn is_static(&self) -> bool {
        self.stat
    }
    fn exec(&mut self, op: &Op, prob: f64) -> Obs {
        match op {
            Op::Gate { g, ctls, t, var } => {
                ctl_gate(*g, ctls, *t, *var);
                Obs::None
            }
            Op::Rot { p, th, ctls, t, var } => unsafe {
                if ctls.is_empty() && var & 1 == 0 {
                    match p {
                        P::X => q::__quantum__qis__rx__body(*th, qp(*t)),
                        P::Y => q::__quantum__qis__ry__body(*th, qp(*t)),
                        P::Z => q::__quantum__qis__rz__body(*th, qp(*t)),
                        P::I => {}
                    }
                } else {
                    let a = qarr(ctls);
                    let tp = tup(&[th.to_bits(), *t as u64]);
                    match p {
                        P::X => q::__quantum__qis__rx__ctl(a, tp),
                        P::Y => q::__quantum__qis__ry__ctl(a, tp),
                        P::Z => q::__quantum__qis__rz__ctl(a, tp),
                        P::I => {}
                    }
                    untup(tp);
                    unarr(a);
                }
                Obs::None
            },
            Op::RP { p, th, ctls, t, var } => unsafe {
                let adj = var & 1 == 1;
                if ctls.is_empty() && var & 2 == 0 {
                    if adj {
                        q::__quantum__qis__r__adj(qpauli(*p), *th, qp(*t));
                    } else {
                        q::__quantum__qis__r__body(qpauli(*p), *th, qp(*t));
                    }
                } else {
                    let a = qarr(ctls);
                    let tp = tup(&[qpauli(*p) as i8 as u8 as u64, th.to_bits(), *t as u64]);
                    if adj {
                        q::__quantum__qis__r__ctladj(a, tp);
                    } else {
                        q::__quantum__qis__r__ctl(a, tp);
                    }
                    untup(tp);
                    unarr(a);
                }
                Obs::None
            },
            Op::Exp { ps, th, ctls, var } => unsafe {
                let pv: Vec<P> = ps.iter().map(|x| x.0).collect();
                let tv: Vec<usize> = ps.iter().map(|x| x.1).collect();
                let (pa, qa) = (parr(&pv), qarr(&tv));
                // var&2: call the adjoint form with the negated angle
                let (adj, th) = if var & 2 == 2 { (true, -*th) } else { (false, *th) };
                if ctls.is_empty() && var & 1 == 0 {
                    if adj {
                        qe::__quantum__qis__exp__adj(pa, th, qa);
                    } else {
                        qe::__quantum__qis__exp__body(pa, th, qa);
                    }
                } else {
                    let a = qarr(ctls);
                    let tp = tup(&[pa as u64, th.to_bits(), qa as u64]);
                    if adj {
                        qe::__quantum__qis__exp__ctladj(a, tp);
                    } else {
                        qe::__quantum__qis__exp__ctl(a, tp);
                    }
                    untup(tp);
                    unarr(a);
                }
                unarr(pa);
                unarr(qa);
                Obs::None
            },
            Op::Swap(a, b) => {
                q::__quantum__qis__swap__body(qp(*a), qp(*b));
                Obs::None
            }
            Op::Sx(t) => {
                q::__quantum__qis__sx__body(qp(*t));
                Obs::None
            }
            Op::Rpp(p, th, a, b) => {
                match p {
                    P::X => q::__quantum__qis__rxx__body(*th, qp(*a), qp(*b)),
                    P::Y => q::__quantum__qis__ryy__body(*th, qp(*a), qp(*b)),
                    _ => q::__quantum__qis__rzz__body(*th, qp(*a), qp(*b)),
                }
                Obs::None
            }
            Op::Barrier => {
                q::__quantum__qis__barrier__body();
                Obs::None
            }
            Op::Alloc => Obs::Id(q::__quantum__rt__qubit_allocate() as usize),
            Op::AllocN(n) => unsafe {
                let a = q::__quantum__rt__qubit_allocate_array(*n as u64);
                let len = q::__quantum__rt__array_get_size_1d(a);
                let v = (0..len)
                    .map(|i| q::__quantum__rt__array_get_element_ptr_1d(a, i).cast::<usize>().read_unaligned())
                    .collect();
                // compiled programs alias the array while they use it
                let alias = n % 2 == 1;
                if alias {
                    q::__quantum__rt__array_update_alias_count(a, 1);
                }
                self.arrays.push(Some((a, alias)));
                Obs::Ids(v)
            },
            Op::Release(t) => {
                q::__quantum__rt__qubit_release(qp(*t));
                Obs::None
            }
            Op::ReleaseN(i) => unsafe {
                if let Some((a, alias)) = self.arrays[*i].take() {
                    if alias {
                        q::__quantum__rt__array_update_alias_count(a, -1);
                    }
                    // the qubits of an array are released in whatever order the program stored them
                    let len = q::__quantum__rt__array_get_size_1d(a);
                    for k in 0..if i % 2 == 1 { len / 2 } else { 0 } {
                        let (x, y) = (q::__quantum__rt__array_get_element_ptr_1d(a, k), q::__quantum__rt__array_get_element_ptr_1d(a, len - 1 - k));
                        std::ptr::swap(x.cast::<[u8; 8]>(), y.cast::<[u8; 8]>());
                    }
                    q::__quantum__rt__qubit_release_array(a);
                }
                Obs::None
            },
            Op::M(t) => is_one(q::__quantum__qis__m__body(qp(*t))),
            Op::JM(v) => self.exec(&Op::PM(v.iter().map(|x| (P::Z, *x)).collect()), 0.0),
            Op::PM(ps) => unsafe {
                let pv: Vec<P> = ps.iter().map(|x| x.0).collect();
                let tv: Vec<usize> = ps.iter().map(|x| x.1).collect();
                let (pa, qa) = (parr(&pv), qarr(&tv));
                let r = q::__quantum__qis__measure__body(pa, qa);
                unarr(pa);
                unarr(qa);
                is_one(r)
            },
            Op::AP(ps, one, _, tol, ctl) => unsafe {
                let pv: Vec<P> = ps.iter().map(|x| x.0).collect();
                let tv: Vec<usize> = ps.iter().map(|x| x.1).collect();
                let (pa, qa) = (parr(&pv), qarr(&tv));
                let msg = qstr(b"assertion of the harness");
                let res = if *one {
                    q::result_bool::__quantum__rt__result_get_one()
                } else {
                    q::result_bool::__quantum__rt__result_get_zero()
                };
                if *ctl {
                    let a = qarr(&[]);
                    let tp = tup(&[
                        pa as u64,
                        qa as u64,
                        res as u64,
                        prob.to_bits(),
                        msg as u64,
                        tol.to_bits(),
                    ]);
                    q::__quantum__qis__assertmeasurementprobability__ctl(a, tp);
                    untup(tp);
                    unarr(a);
                } else {
                    q::__quantum__qis__assertmeasurementprobability__body(pa, qa, res, prob, msg, *tol);
                }
                q::__quantum__rt__string_update_reference_count(msg, -1);
                unarr(pa);
                unarr(qa);
                Obs::None
            },
            Op::Mz(t, r) => {
                q::__quantum__qis__mz__body(qp(*t), qp(*r));
                Obs::Bool(q::__quantum__qis__read_result__body(qp(*r)))
            }
            Op::MResetZ(t, r) => {
                q::__quantum__qis__mresetz__body(qp(*t), qp(*r));
                Obs::Bool(q::__quantum__qis__read_result__body(qp(*r)))
            }
            Op::Reset(t) => {
                q::__quantum__qis__reset__body(qp(*t));
                Obs::None
            }
            Op::Read(r, v) => Obs::Bool(if v & 1 == 0 {
                q::__quantum__qis__read_result__body(qp(*r))
            } else {
                q::__quantum__rt__read_result(qp(*r))
            }),
            Op::Write(b, r) => {
                q::__quantum__rt__write_result(*b, qp(*r));
                Obs::None
            }
            Op::Rec(r, v) => {
                let _ = take_output();
                match v & 3 {
                    0 => q::legacy_output::__quantum__rt__result_record_output(qp(*r)),
                    1 => unsafe { q::__quantum__rt__result_record_output(qp(*r), null_mut()) },
                    _ => {
                        let tag = CString::new(format!("r{r}")).unwrap();
                        unsafe { q::__quantum__rt__result_record_output(qp(*r), tag.as_ptr() as *mut c_char) }
                    }
                }
                Obs::Text(String::from_utf8_lossy(&take_output()).into_owned())
            }
            Op::GetState => {
                let (v, n) = q::capture_quantum_state();
                Obs::State(v, n)
            }
            Op::Dump => {
                let _ = take_output();
                q::__quantum__qis__dumpmachine__body(null_mut());
                Obs::Text(String::from_utf8_lossy(&take_output()).into_owned())
            }
            Op::JP(v) => {
                // not available at this level: observe through the first qubit only
                match v.first() {
                    Some(t) => {
                        let _ = q::qubit_is_zero(qp(*t));
                        Obs::None
                    }
                    None => Obs::None,
                }
            }
            Op::IsZero(t) => Obs::Bool(q::qubit_is_zero(qp(*t))),
            Op::Seed(x) => {
                q::set_rng_seed(*x);
                Obs::None
            }
            Op::Init => {
                self.arrays.iter_mut().for_each(|a| *a = None);
                q::__quantum__rt__initialize(null_mut());
                Obs::None
            }
            o => panic!("operation {o:?} is not part of the QIR interface"),
        }
    }
    fn state(&mut self) -> (Vec<(BigUint, C)>, usize) {
        q::capture_quantum_state()
    }
}

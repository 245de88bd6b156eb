//! Random QIR programs: generation, emission as LLVM IR, and execution by calling the runtime directly.
use crate::rng::Rng;
use crate::sigs::{Sig, table};
use std::collections::BTreeSet;
use std::ffi::{CString, c_void};
use std::fmt::Write;

#[derive(Clone, Debug)]
pub enum V {
    R(usize),
    I(i64),
    D(f64),
    B(bool),
    /// static qubit or result
    Q(usize),
    U(u8),
    Str(Vec<u8>),
    Range(i64, i64, i64),
    Null,
    FuncTable,
    MemTable,
}

#[derive(Clone, Debug)]
pub enum Ins {
    Call { f: usize, args: Vec<V>, dst: Option<usize> },
    Load { dst: usize, ptr: V, off: i64 },
    Store { ptr: V, off: i64, val: V, ty: char },
    Zext { dst: usize, src: usize },
    If { cond: V, then: Vec<Ins>, els: Vec<Ins> },
    Loop { n: u64, body: Vec<Ins> },
    Sub { body: Vec<Ins> },
    /// never executed, present in the module
    Dead { body: Vec<Ins> },
}

pub struct Sigs(pub Vec<Sig>);

impl Sigs {
    pub fn new() -> Self {
        Sigs(table())
    }
    pub fn find(&self, name: &str, n: usize) -> usize {
        self.0
            .iter()
            .position(|s| s.name == name && s.args.len() == n)
            .unwrap_or_else(|| panic!("no signature {name}/{n}"))
    }
}

#[derive(Clone)]
pub struct Prog {
    pub legacy: bool,
    pub regs: Vec<char>,
    pub pre: Vec<Ins>,
    pub snips: Vec<Vec<Ins>>,
    pub post: Vec<Ins>,
    pub callables: bool,
}

const QS: &str = "__quantum__qis__";
const RT: &str = "__quantum__rt__";

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub sg: &'a Sigs,
    pub stat: bool,
    pub dynres: bool,
    pub legacy: bool,
    pub qubits: Vec<V>,
    pub regs: Vec<char>,
    pub callables: bool,
    pub nosnap: bool,
}

type Out = Vec<Ins>;

impl Gen<'_> {
    pub fn reg(&mut self, t: char) -> usize {
        self.regs.push(t);
        self.regs.len() - 1
    }
    pub fn call(&mut self, o: &mut Out, name: &str, args: &[V]) -> V {
        let f = self.sg.find(name, args.len());
        let ret = self.sg.0[f].ret;
        let dst = if ret == 'v' { None } else { Some(self.reg(ret)) };
        o.push(Ins::Call { f, args: args.to_vec(), dst });
        dst.map_or(V::Null, V::R)
    }
    fn qis(&mut self, o: &mut Out, name: &str, args: &[V]) -> V {
        self.call(o, &format!("{QS}{name}"), args)
    }
    fn rt(&mut self, o: &mut Out, name: &str, args: &[V]) -> V {
        self.call(o, &format!("{RT}{name}"), args)
    }
    fn label(&mut self) -> V {
        if self.r.chance(0.3) { V::Null } else { V::Str(self.text()) }
    }
    pub fn text(&mut self) -> Vec<u8> {
        const BITS: [&str; 14] = ["a", "B", "0", " ", "\u{e9}", "q_1", "\"", "\\", "%", "\t", "{}", "\u{1F600}", "x=", "'"];
        let n = self.r.below(5);
        (0..n).map(|_| *self.r.pick(&BITS)).collect::<String>().into_bytes()
    }
    fn rec(&mut self, o: &mut Out, what: &str, v: V) {
        let name = format!("{RT}{what}_record_output");
        if self.legacy {
            self.call(o, &name, &[v]);
        } else {
            let l = self.label();
            self.call(o, &name, &[v, l]);
        }
    }
    fn rec_w(&mut self, o: &mut Out, v: V) {
        let V::R(src) = v else { return };
        let dst = self.reg('l');
        o.push(Ins::Zext { dst, src });
        self.rec(o, "int", V::R(dst));
    }
    fn say(&mut self, o: &mut Out, s: V) {
        let k = if self.r.chance(0.3) { "message_record_output" } else { "message" };
        self.rt(o, k, &[s.clone()]);
        if self.r.chance(0.8) {
            self.rt(o, "string_update_reference_count", &[s, V::I(-1)]);
        }
    }
    pub fn distinct(&mut self, k: usize) -> Vec<V> {
        let mut ix: Vec<usize> = (0..self.qubits.len()).collect();
        self.r.shuffle(&mut ix);
        ix.truncate(k);
        ix.into_iter().map(|i| self.qubits[i].clone()).collect()
    }
    fn angle(&mut self) -> V {
        let pi = std::f64::consts::PI;
        V::D(match self.r.below(4) {
            0 => self.r.range(-8, 8) as f64 * pi / 4.0,
            1 => self.r.range(-3, 3) as f64 * pi,
            _ => (self.r.f64() - 0.5) * 9.0,
        })
    }
    fn any_double(&mut self) -> V {
        V::D(match self.r.below(6) {
            0 => *self.r.pick(&[0.0, -0.0, 1.0, -1.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e300, 5e-324]),
            1 => f64::from_bits(self.r.u64()),
            _ => (self.r.f64() - 0.5) * 4.0,
        })
    }
    fn qarray(&mut self, o: &mut Out, el: &[V]) -> V {
        let a = self.rt(o, "array_create_1d", &[V::I(8), V::I(el.len() as i64)]);
        for (i, e) in el.iter().enumerate() {
            let p = self.rt(o, "array_get_element_ptr_1d", &[a.clone(), V::I(i as i64)]);
            o.push(Ins::Store { ptr: p, off: 0, val: e.clone(), ty: 'p' });
        }
        a
    }
    fn parray(&mut self, o: &mut Out, el: &[u8]) -> V {
        let a = self.rt(o, "array_create_1d", &[V::I(1), V::I(el.len() as i64)]);
        for (i, e) in el.iter().enumerate() {
            let p = self.rt(o, "array_get_element_ptr_1d", &[a.clone(), V::I(i as i64)]);
            o.push(Ins::Store { ptr: p, off: 0, val: V::I(i64::from(*e)), ty: 'c' });
        }
        a
    }
    fn drop_array(&mut self, o: &mut Out, a: V) {
        self.rt(o, "array_update_reference_count", &[a, V::I(-1)]);
    }
    fn tuple(&mut self, o: &mut Out, fields: &[(V, char)]) -> V {
        let t = self.rt(o, "tuple_create", &[V::I(8 * fields.len() as i64)]);
        for (i, (v, ty)) in fields.iter().enumerate() {
            o.push(Ins::Store { ptr: t.clone(), off: 8 * i as i64, val: v.clone(), ty: *ty });
        }
        t
    }
    fn drop_tuple(&mut self, o: &mut Out, t: V) {
        self.rt(o, "tuple_update_reference_count", &[t, V::I(-1)]);
    }

    // ---- snippets ----
    fn gate(&mut self, o: &mut Out) {
        let nq = self.qubits.len();
        match self.r.below(9) {
            0 | 1 => {
                let n = *self.r.pick(&["h__body", "s__body", "t__body", "x__body", "y__body", "z__body", "sx__body", "s__adj", "t__adj"]);
                let q = self.distinct(1);
                self.qis(o, n, &q);
            }
            2 => {
                let n = *self.r.pick(&["cnot__body", "cx__body", "cy__body", "cz__body", "swap__body"]);
                let q = self.distinct(2);
                self.qis(o, n, &q);
            }
            3 if nq >= 3 => {
                let q = self.distinct(3);
                self.qis(o, "ccx__body", &q);
            }
            4 => {
                let n = *self.r.pick(&["rx__body", "ry__body", "rz__body"]);
                let q = self.distinct(1);
                let a = self.angle();
                self.qis(o, n, &[a, q[0].clone()]);
            }
            5 => {
                if self.r.bool() {
                    let n = *self.r.pick(&["rxx__body", "ryy__body", "rzz__body"]);
                    let q = self.distinct(2);
                    let a = self.angle();
                    self.qis(o, n, &[a, q[0].clone(), q[1].clone()]);
                } else {
                    let n = *self.r.pick(&["r__body", "r__adj"]);
                    let q = self.distinct(1);
                    let a = self.angle();
                    let p = V::U(self.r.below(4) as u8);
                    self.qis(o, n, &[p, a, q[0].clone()]);
                }
            }
            6 => {
                // controlled forms over arrays
                let k = self.r.below(nq.min(4));
                let q = self.distinct(k + 1);
                let ctls = self.qarray(o, &q[..k]);
                let t = q[k].clone();
                match self.r.below(3) {
                    0 => {
                        let n = *self.r.pick(&["h__ctl", "s__ctl", "t__ctl", "x__ctl", "y__ctl", "z__ctl", "s__ctladj", "t__ctladj"]);
                        self.qis(o, n, &[ctls.clone(), t]);
                    }
                    1 => {
                        let n = *self.r.pick(&["rx__ctl", "ry__ctl", "rz__ctl"]);
                        let a = self.angle();
                        let tup = self.tuple(o, &[(a, 'd'), (t, 'p')]);
                        self.qis(o, n, &[ctls.clone(), tup.clone()]);
                        self.drop_tuple(o, tup);
                    }
                    _ => {
                        let n = *self.r.pick(&["r__ctl", "r__ctladj"]);
                        let a = self.angle();
                        let p = V::I(self.r.below(4) as i64);
                        let tup = self.tuple(o, &[(p, 'c'), (a, 'd'), (t, 'p')]);
                        self.qis(o, n, &[ctls.clone(), tup.clone()]);
                        self.drop_tuple(o, tup);
                    }
                }
                self.drop_array(o, ctls);
            }
            _ => {
                // exponentials of Pauli products
                let k = 1 + self.r.below(nq.min(3));
                let c = self.r.below((nq - k + 1).min(3));
                let q = self.distinct(k + c);
                let ps: Vec<u8> = (0..k).map(|_| self.r.below(4) as u8).collect();
                let pa = self.parray(o, &ps);
                let qa = self.qarray(o, &q[..k]);
                let a = self.angle();
                if c == 0 && self.r.bool() {
                    let n = *self.r.pick(&["exp__body", "exp__adj"]);
                    self.qis(o, n, &[pa.clone(), a, qa.clone()]);
                } else {
                    let n = *self.r.pick(&["exp__ctl", "exp__ctladj"]);
                    let ctls = self.qarray(o, &q[k..]);
                    let tup = self.tuple(o, &[(pa.clone(), 'p'), (a, 'd'), (qa.clone(), 'p')]);
                    self.qis(o, n, &[ctls.clone(), tup.clone()]);
                    self.drop_tuple(o, tup);
                    self.drop_array(o, ctls);
                }
                self.drop_array(o, pa);
                self.drop_array(o, qa);
            }
        }
    }
    fn gates(&mut self, o: &mut Out) {
        for _ in 0..1 + self.r.below(6) {
            self.gate(o);
        }
    }
    fn measure(&mut self, o: &mut Out) {
        let q = self.distinct(1)[0].clone();
        if self.dynres {
            let res = match self.r.below(5) {
                0 => self.rt(o, "result_get_one", &[]),
                1 => self.rt(o, "result_get_zero", &[]),
                2 => {
                    let k = 1 + self.r.below(self.qubits.len().min(3));
                    let qs = self.distinct(k);
                    let ps: Vec<u8> = (0..k).map(|_| self.r.below(4) as u8).collect();
                    let pa = self.parray(o, &ps);
                    let qa = self.qarray(o, &qs);
                    let m = self.qis(o, "measure__body", &[pa.clone(), qa.clone()]);
                    self.drop_array(o, pa);
                    self.drop_array(o, qa);
                    m
                }
                _ => self.qis(o, "m__body", &[q]),
            };
            self.use_result(o, res, true);
        } else {
            let id = V::Q(self.r.below(5));
            match self.r.below(5) {
                0 => self.qis(o, "mresetz__body", &[q, id.clone()]),
                1 => self.qis(o, "m__body", &[q, id.clone()]),
                2 => {
                    let b = self.r.bool();
                    self.rt(o, "write_result", &[V::B(b), id.clone()])
                }
                _ => self.qis(o, "mz__body", &[q, id.clone()]),
            };
            self.use_result(o, id, false);
        }
    }
    fn use_result(&mut self, o: &mut Out, res: V, dynamic: bool) {
        for _ in 0..1 + self.r.below(2) {
            match self.r.below(6) {
                0 | 1 => {
                    let b = if dynamic {
                        let one = self.rt(o, "result_get_one", &[]);
                        self.rt(o, "result_equal", &[res.clone(), one])
                    } else if self.r.bool() {
                        self.qis(o, "read_result__body", &[res.clone()])
                    } else {
                        self.rt(o, "read_result", &[res.clone()])
                    };
                    self.rec(o, "bool", b.clone());
                    if self.r.chance(0.6) {
                        let (mut t, mut e) = (vec![], vec![]);
                        self.gate(&mut t);
                        if self.r.bool() {
                            self.gate(&mut e);
                        }
                        o.push(Ins::If { cond: b, then: t, els: e });
                    }
                }
                2 if dynamic => {
                    let s = self.rt(o, "result_to_string", &[res.clone()]);
                    self.say(o, s);
                }
                3 if dynamic => {
                    let n = V::I(self.r.range(-1, 1));
                    self.rt(o, "result_update_reference_count", &[res.clone(), n]);
                }
                _ => self.rec(o, "result", res.clone()),
            }
        }
    }
    fn math(&mut self, o: &mut Out) {
        let x = self.any_double();
        match self.r.below(7) {
            0 => {
                let n = *self.r.pick(&["nan__body", "infinity__body"]);
                let v = self.qis(o, n, &[]);
                self.rec(o, "double", v);
            }
            1 => {
                let n = *self.r.pick(&["isnan__body", "isinf__body", "isnegativeinfinity__body"]);
                let v = self.qis(o, n, &[x]);
                self.rec(o, "bool", v);
            }
            2 => {
                let n = *self.r.pick(&["arctan2__body", "ieeeremainder__body"]);
                let y = self.any_double();
                let v = self.qis(o, n, &[x, y]);
                self.rec(o, "double", v);
            }
            // the seed covers measurement only: classical draws are recorded when they have one outcome
            3 => {
                let a = self.r.range(-100, 100);
                let one = self.r.bool();
                let b = if one { a } else if self.r.chance(0.1) { i64::MAX } else { a + self.r.range(0, 1000) };
                let v = self.qis(o, "drawrandomint__body", &[V::I(a), V::I(b)]);
                if one {
                    self.rec(o, "int", v);
                }
            }
            4 => {
                let a = (self.r.f64() - 0.5) * 10.0;
                let one = self.r.bool();
                let b = if one { a } else { a + self.r.f64() * 5.0 };
                let v = self.qis(o, "drawrandomdouble__body", &[V::D(a), V::D(b)]);
                if one {
                    self.rec(o, "double", v);
                }
            }
            _ => {
                let n = *self.r.pick(&[
                    "sin__body", "cos__body", "tan__body", "sinh__body", "cosh__body", "tanh__body", "arcsin__body", "arccos__body",
                    "arctan__body", "sqrt__body", "log__body",
                ]);
                let v = self.qis(o, n, &[x]);
                if self.r.chance(0.3) {
                    let s = self.rt(o, "double_to_string", &[v]);
                    self.say(o, s);
                } else {
                    self.rec(o, "double", v);
                }
            }
        }
    }
    fn a_string(&mut self, o: &mut Out) -> V {
        match self.r.below(6) {
            0 => {
                let v = V::I(self.r.u64() as i64 >> self.r.below(64));
                self.rt(o, "int_to_string", &[v])
            }
            1 => {
                let v = V::B(self.r.bool());
                self.rt(o, "bool_to_string", &[v])
            }
            2 => {
                let v = V::U(self.r.below(4) as u8);
                self.rt(o, "pauli_to_string", &[v])
            }
            3 => {
                let v = V::Range(self.r.range(-9, 9), self.r.range(-9, 9), self.r.range(-9, 9));
                self.call(o, "quantum__rt__range_to_string", &[v])
            }
            _ => {
                let t = V::Str(self.text());
                self.rt(o, "string_create", &[t])
            }
        }
    }
    fn strings(&mut self, o: &mut Out) {
        let a = self.a_string(o);
        let b = self.a_string(o);
        let c = self.rt(o, "string_concatenate", &[a.clone(), b.clone()]);
        let e = self.rt(o, "string_equal", &[a.clone(), b.clone()]);
        self.rec(o, "bool", e);
        let n = self.rt(o, "string_get_length", &[c.clone()]);
        self.rec_w(o, n);
        if self.r.bool() {
            let d = self.rt(o, "string_get_data", &[c.clone()]);
            let s = self.rt(o, "string_create", &[d]);
            self.say(o, s);
        }
        self.rt(o, "message", &[c.clone()]);
        for s in [a, b, c] {
            self.rt(o, "string_update_reference_count", &[s, V::I(-1)]);
        }
    }
    fn bigints(&mut self, o: &mut Out) {
        let mut v: Vec<V> = vec![];
        for _ in 0..2 {
            let x = if self.r.bool() {
                let k = V::I(self.r.u64() as i64 >> self.r.below(64));
                self.rt(o, "bigint_create_i64", &[k])
            } else {
                let n = 1 + self.r.below(20);
                let b: Vec<u8> = (0..n).map(|_| self.r.u64() as u8 | 1).collect();
                self.rt(o, "bigint_create_array", &[V::I(n as i64), V::Str(b)])
            };
            v.push(x);
        }
        for _ in 0..1 + self.r.below(5) {
            let (a, b) = (self.r.pick(&v).clone(), self.r.pick(&v).clone());
            match self.r.below(9) {
                0 => {
                    let n = *self.r.pick(&["bigint_negate", "bigint_bitnot"]);
                    let x = self.rt(o, n, &[a]);
                    v.push(x);
                }
                1 => {
                    let k = V::I(self.r.below(4) as i64);
                    let x = self.rt(o, "bigint_power", &[a, k]);
                    v.push(x);
                }
                2 => {
                    let n = *self.r.pick(&["bigint_shiftleft", "bigint_shiftright"]);
                    let k = V::I(self.r.below(70) as i64);
                    let x = self.rt(o, n, &[a, k]);
                    v.push(x);
                }
                3 => {
                    // a divisor that is never zero
                    let n = *self.r.pick(&["bigint_divide", "bigint_modulus"]);
                    let k = V::I(self.r.range(1, 1 << 40) * if self.r.bool() { 1 } else { -1 });
                    let d = self.rt(o, "bigint_create_i64", &[k]);
                    let x = self.rt(o, n, &[a, d.clone()]);
                    v.push(d);
                    v.push(x);
                }
                4 => {
                    let n = *self.r.pick(&["bigint_equal", "bigint_greater", "bigint_greater_eq"]);
                    let x = self.rt(o, n, &[a, b]);
                    self.rec(o, "bool", x);
                }
                5 => {
                    let n = self.rt(o, "bigint_get_length", &[a.clone()]);
                    self.rec_w(o, n);
                    let d = self.rt(o, "bigint_get_data", &[a]);
                    let c = self.reg('c');
                    o.push(Ins::Load { dst: c, ptr: d, off: 0 });
                    self.rec_w(o, V::R(c));
                }
                _ => {
                    let n = *self.r.pick(&["bigint_add", "bigint_subtract", "bigint_multiply", "bigint_bitand", "bigint_bitor", "bigint_bitxor"]);
                    let x = self.rt(o, n, &[a, b]);
                    v.push(x);
                }
            }
        }
        for x in &v {
            if self.r.chance(0.4) {
                let s = self.rt(o, "bigint_to_string", &[x.clone()]);
                self.say(o, s);
            }
        }
        for x in v {
            self.rt(o, "bigint_update_reference_count", &[x, V::I(-1)]);
        }
    }
    fn rec_array(&mut self, o: &mut Out, a: &V, len: i64) {
        let n = self.rt(o, "array_get_size_1d", &[a.clone()]);
        self.rec(o, "int", n);
        for i in 0..len {
            if self.r.chance(0.5) {
                let p = self.rt(o, "array_get_element_ptr_1d", &[a.clone(), V::I(i)]);
                let d = self.reg('l');
                o.push(Ins::Load { dst: d, ptr: p, off: 0 });
                self.rec(o, "int", V::R(d));
            }
        }
    }
    fn arrays(&mut self, o: &mut Out) {
        let mut v: Vec<(V, i64)> = vec![];
        for _ in 0..2 {
            let n = self.r.range(0, 5);
            let a = self.rt(o, "array_create_1d", &[V::I(8), V::I(n)]);
            for i in 0..n {
                let p = self.rt(o, "array_get_element_ptr_1d", &[a.clone(), V::I(i)]);
                let x = V::I(self.r.range(-50, 50));
                o.push(Ins::Store { ptr: p, off: 0, val: x, ty: 'l' });
            }
            v.push((a, n));
        }
        for _ in 0..1 + self.r.below(3) {
            let (a, n) = self.r.pick(&v).clone();
            match self.r.below(3) {
                0 => {
                    let (b, m) = self.r.pick(&v).clone();
                    let c = self.rt(o, "array_concatenate", &[a, b]);
                    v.push((c, n + m));
                }
                1 if n > 0 => {
                    let st = *self.r.pick(&[-3, -2, -1, 1, 2, 3]);
                    let (i, j) = (self.r.range(0, n - 1), self.r.range(0, n - 1));
                    let cnt = if (st > 0 && i > j) || (st < 0 && i < j) { 0 } else { (j - i) / st + 1 };
                    let f = V::B(self.r.bool());
                    let c = self.call(o, "quantum__rt__array_slice_1d", &[a, V::Range(i, st, j), f]);
                    v.push((c, cnt));
                }
                _ => {
                    let al = self.r.bool();
                    if al {
                        self.rt(o, "array_update_alias_count", &[a.clone(), V::I(1)]);
                    }
                    let f = V::B(self.r.bool());
                    let c = self.rt(o, "array_copy", &[a.clone(), f]);
                    if n > 0 {
                        let p = self.rt(o, "array_get_element_ptr_1d", &[c.clone(), V::I(0)]);
                        let x = V::I(self.r.range(100, 200));
                        o.push(Ins::Store { ptr: p, off: 0, val: x, ty: 'l' });
                    }
                    if al {
                        self.rt(o, "array_update_alias_count", &[a, V::I(-1)]);
                    }
                    v.push((c, n));
                }
            }
        }
        if !self.legacy && self.r.bool() {
            let l = self.label();
            self.rt(o, "array_record_output", &[V::I(v.len() as i64), l]);
        } else if self.legacy {
            self.rt(o, "array_start_record_output", &[]);
        }
        for (a, n) in &v {
            self.rec_array(o, a, *n);
        }
        if self.legacy {
            self.rt(o, "array_end_record_output", &[]);
        }
        for (a, _) in v {
            self.drop_array(o, a);
        }
    }
    fn tuples(&mut self, o: &mut Out) {
        let n = 1 + self.r.below(3);
        let f: Vec<(V, char)> = (0..n).map(|_| (V::I(self.r.range(-9, 9)), 'l')).collect();
        let t = self.tuple(o, &f);
        let al = self.r.bool();
        if al {
            self.rt(o, "tuple_update_alias_count", &[t.clone(), V::I(1)]);
        }
        let force = V::B(self.r.bool());
        let c = self.rt(o, "tuple_copy", &[t.clone(), force]);
        o.push(Ins::Store { ptr: c.clone(), off: 0, val: V::I(77), ty: 'l' });
        if al {
            self.rt(o, "tuple_update_alias_count", &[t.clone(), V::I(-1)]);
        }
        if self.legacy {
            self.rt(o, "tuple_start_record_output", &[]);
        } else {
            let l = self.label();
            self.rt(o, "tuple_record_output", &[V::I(2), l]);
        }
        for x in [&t, &c] {
            let d = self.reg('l');
            o.push(Ins::Load { dst: d, ptr: x.clone(), off: 8 * self.r.below(n) as i64 });
            self.rec(o, "int", V::R(d));
        }
        if self.legacy {
            self.rt(o, "tuple_end_record_output", &[]);
        }
        self.drop_tuple(o, t);
        self.drop_tuple(o, c);
        if self.r.chance(0.3) {
            let m = self.rt(o, "memory_allocate", &[V::I(16)]);
            o.push(Ins::Store { ptr: m.clone(), off: 8, val: V::I(-5), ty: 'l' });
            let d = self.reg('l');
            o.push(Ins::Load { dst: d, ptr: m, off: 8 });
            self.rec(o, "int", V::R(d));
        }
    }
    fn callable(&mut self, o: &mut Out) {
        self.callables = true;
        let k = V::I(self.r.range(-9, 9));
        let cap = self.tuple(o, &[(k, 'l')]);
        let mut c = self.rt(o, "callable_create", &[V::FuncTable, V::MemTable, cap]);
        let mut nest = 0;
        for _ in 0..self.r.below(4) {
            match self.r.below(4) {
                0 => {
                    self.rt(o, "callable_make_adjoint", &[c.clone()]);
                }
                1 | 2 => {
                    self.rt(o, "callable_make_controlled", &[c.clone()]);
                    nest += 1;
                }
                _ => {
                    self.rt(o, "callable_update_alias_count", &[c.clone(), V::I(1)]);
                    self.rt(o, "capture_update_alias_count", &[c.clone(), V::I(1)]);
                    self.rt(o, "capture_update_reference_count", &[c.clone(), V::I(1)]);
                    let d = self.rt(o, "callable_copy", &[c.clone(), V::B(true)]);
                    self.rt(o, "capture_update_alias_count", &[c.clone(), V::I(-1)]);
                    self.rt(o, "callable_update_alias_count", &[c.clone(), V::I(-1)]);
                    self.rt(o, "capture_update_reference_count", &[c.clone(), V::I(-1)]);
                    self.rt(o, "callable_update_reference_count", &[c, V::I(-1)]);
                    c = d;
                }
            }
        }
        let x = V::I(self.r.range(-99, 99));
        let mut args = self.tuple(o, &[(x, 'l')]);
        let mut drops = vec![args.clone()];
        let mut arrays = vec![];
        for _ in 0..nest {
            let n = self.r.below(3);
            let el: Vec<V> = (0..n).map(|_| V::Q(self.r.below(5))).collect();
            let a = self.qarray(o, &el);
            args = self.tuple(o, &[(a.clone(), 'p'), (args, 'p')]);
            arrays.push(a);
            drops.push(args.clone());
        }
        let res = self.tuple(o, &[(V::I(0), 'l')]);
        self.rt(o, "callable_invoke", &[c.clone(), args, res.clone()]);
        let d = self.reg('l');
        o.push(Ins::Load { dst: d, ptr: res.clone(), off: 0 });
        self.rec(o, "int", V::R(d));
        drops.push(res);
        for t in drops {
            self.drop_tuple(o, t);
        }
        for a in arrays {
            self.drop_array(o, a);
        }
        self.rt(o, "capture_update_reference_count", &[c.clone(), V::I(-1)]);
        self.rt(o, "callable_update_reference_count", &[c, V::I(-1)]);
    }
    fn quantum_misc(&mut self, o: &mut Out) {
        let q = self.distinct(1)[0].clone();
        match self.r.below(if self.stat { 5 } else { 8 }) {
            0 => {
                self.qis(o, "reset__body", &[q]);
            }
            1 => {
                self.qis(o, "barrier__body", &[]);
            }
            2 if self.dynres || self.r.bool() => {
                let k = 1 + self.r.below(self.qubits.len().min(3));
                let qs = self.distinct(k);
                let ps: Vec<u8> = (0..k).map(|_| self.r.below(4) as u8).collect();
                let pa = self.parray(o, &ps);
                let qa = self.qarray(o, &qs);
                let m = self.text();
                let m = self.rt(o, "string_create", &[V::Str(m)]);
                let which = if self.r.bool() { "result_get_one" } else { "result_get_zero" };
                let res = self.rt(o, which, &[]);
                let p = V::D(self.r.f64());
                if self.r.bool() {
                    self.qis(o, "assertmeasurementprobability__body", &[pa.clone(), qa.clone(), res, p, m.clone(), V::D(2.0)]);
                } else {
                    let ctls = self.qarray(o, &[]);
                    let t = self.tuple(
                        o,
                        &[(pa.clone(), 'p'), (qa.clone(), 'p'), (res, 'p'), (p, 'd'), (m.clone(), 'p'), (V::D(2.0), 'd')],
                    );
                    self.qis(o, "assertmeasurementprobability__ctl", &[ctls.clone(), t.clone()]);
                    self.drop_tuple(o, t);
                    self.drop_array(o, ctls);
                }
                self.rt(o, "string_update_reference_count", &[m, V::I(-1)]);
                self.drop_array(o, pa);
                self.drop_array(o, qa);
            }
            3 => {
                let s = self.rt(o, "qubit_to_string", &[q]);
                self.say(o, s);
            }
            4 if !self.nosnap => {
                self.qis(o, "dumpmachine__body", &[V::Null]);
            }
            5 => {
                let n = 1 + self.r.below(2);
                let a = self.rt(o, "qubit_allocate_array", &[V::I(n as i64)]);
                let p = self.rt(o, "array_get_element_ptr_1d", &[a.clone(), V::I(0)]);
                let d = self.reg('p');
                o.push(Ins::Load { dst: d, ptr: p, off: 0 });
                self.qubits.push(V::R(d));
                for _ in 0..3 {
                    self.gate(o);
                }
                self.qubits.pop();
                self.rt(o, "qubit_release_array", &[a]);
            }
            6 => {
                let a = self.rt(o, "qubit_allocate", &[]);
                self.qubits.push(a.clone());
                for _ in 0..3 {
                    self.gate(o);
                }
                self.qubits.pop();
                self.qis(o, "reset__body", &[a.clone()]);
                self.rt(o, "qubit_release", &[a]);
            }
            _ => {
                let t = self.text();
                let m = self.rt(o, "string_create", &[V::Str(t)]);
                let mut b = vec![];
                self.rt(&mut b, "fail", &[m.clone()]);
                o.push(Ins::Dead { body: b });
                self.say(o, m);
            }
        }
    }
    /// one self-contained piece; `classical` pieces touch no qubit registers
    pub fn snippet(&mut self, depth: usize) -> Vec<Ins> {
        let mut o = vec![];
        match self.r.below(14) {
            0..=2 => self.gates(&mut o),
            3 | 4 => {
                self.gates(&mut o);
                self.measure(&mut o);
            }
            5 => self.quantum_misc(&mut o),
            6 => {
                self.gates(&mut o);
                self.quantum_misc(&mut o);
            }
            7 if depth > 0 => {
                let body = self.snippet(depth - 1);
                o.push(Ins::Loop { n: 1 + self.r.below(3) as u64, body });
            }
            8 if depth > 0 => {
                let then = self.snippet(depth - 1);
                let els = self.snippet(depth - 1);
                let b = V::B(self.r.bool());
                o.push(Ins::If { cond: b, then, els });
            }
            k => {
                let mut b = vec![];
                match k {
                    9 => self.math(&mut b),
                    10 => self.strings(&mut b),
                    11 => self.bigints(&mut b),
                    12 => self.arrays(&mut b),
                    13 => self.callable(&mut b),
                    _ => self.tuples(&mut b),
                }
                if self.r.chance(0.3) {
                    o.push(Ins::Sub { body: b });
                } else {
                    o = b;
                }
            }
        }
        o
    }
}

/// A random program over the whole runtime interface.
pub fn random(sg: &Sigs, seed: u64) -> Prog {
    let mut r = Rng::new(seed);
    let stat = r.bool();
    let dynres = r.bool();
    let legacy = r.bool();
    let nq = 2 + r.below(4);
    let mut g = Gen { r: &mut r, sg, stat, dynres, legacy, qubits: vec![], regs: vec![], callables: false, nosnap: false };
    let (mut pre, mut post) = (vec![], vec![]);
    if g.r.chance(0.3) {
        g.rt(&mut pre, "initialize", &[V::Null]);
    }
    if stat {
        g.qubits = (0..nq).map(V::Q).collect();
    } else if g.r.bool() {
        for _ in 0..nq {
            let q = g.rt(&mut pre, "qubit_allocate", &[]);
            g.qubits.push(q.clone());
        }
        for q in g.qubits.clone() {
            g.rt(&mut post, "qubit_release", &[q]);
        }
    } else {
        let a = g.rt(&mut pre, "qubit_allocate_array", &[V::I(nq as i64)]);
        for i in 0..nq {
            let p = g.rt(&mut pre, "array_get_element_ptr_1d", &[a.clone(), V::I(i as i64)]);
            let d = g.reg('p');
            pre.push(Ins::Load { dst: d, ptr: p, off: 0 });
            g.qubits.push(V::R(d));
        }
        g.rt(&mut post, "qubit_release_array", &[a]);
    }
    let n = 1 + g.r.below(8);
    let snips: Vec<Vec<Ins>> = (0..n).map(|_| g.snippet(2)).collect();
    let mut fin = vec![];
    g.qis(&mut fin, "dumpmachine__body", &[V::Null]);
    fin.append(&mut post);
    Prog { legacy, callables: g.callables, regs: g.regs, pre, snips, post: fin }
}

// ---------------------------------------------------------------- emission

fn ty(c: char) -> &'static str {
    match c {
        'p' => "ptr",
        'd' => "double",
        'l' => "i64",
        'w' => "i32",
        'b' => "i1",
        'u' => "i2",
        'c' => "i8",
        'v' => "void",
        'R' => "ptr byval({ i64, i64, i64 }) align 8",
        _ => unreachable!(),
    }
}

pub struct Emit<'a> {
    sg: &'a Sigs,
    regs: &'a [char],
    strs: Vec<Vec<u8>>,
    pub used: BTreeSet<usize>,
    n: usize,
    subs: String,
    allocas: String,
}

pub fn hexstr(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        if x.is_ascii_alphanumeric() || *x == b' ' || *x == b'_' {
            s.push(*x as char);
        } else {
            let _ = write!(s, "\\{x:02X}");
        }
    }
    s
}

impl<'a> Emit<'a> {
    pub fn new(sg: &'a Sigs, regs: &'a [char]) -> Self {
        Emit { sg, regs, strs: vec![], used: BTreeSet::new(), n: 0, subs: String::new(), allocas: String::new() }
    }
    fn fresh(&mut self) -> usize {
        self.n += 1;
        self.n
    }
    fn val(&mut self, v: &V, t: char, o: &mut String) -> String {
        match v {
            V::R(i) => format!("%r{i}"),
            V::I(i) => match t {
                'c' => format!("{}", *i as i8),
                _ => i.to_string(),
            },
            V::D(d) => format!("0x{:016X}", d.to_bits()),
            V::B(b) => b.to_string(),
            V::U(p) => format!("{}", [0, 1, -2, -1][*p as usize]),
            V::Q(0) if t == 'p' && self.n % 2 == 0 => "null".into(),
            V::Q(i) => format!("inttoptr (i64 {i} to ptr)"),
            V::Null => "null".into(),
            V::FuncTable => "@functions".into(),
            V::MemTable => "@memory".into(),
            V::Str(b) => {
                let i = match self.strs.iter().position(|x| x == b) {
                    Some(i) => i,
                    None => {
                        self.strs.push(b.clone());
                        self.strs.len() - 1
                    }
                };
                format!("@s{i}")
            }
            V::Range(a, b, c) => {
                let k = self.fresh();
                let _ = writeln!(self.allocas, "  %g{k} = alloca {{ i64, i64, i64 }}, align 8");
                for (i, x) in [a, b, c].iter().enumerate() {
                    let _ = writeln!(o, "  %g{k}.{i} = getelementptr {{ i64, i64, i64 }}, ptr %g{k}, i32 0, i32 {i}");
                    let _ = writeln!(o, "  store i64 {x}, ptr %g{k}.{i}, align 8");
                }
                format!("%g{k}")
            }
        }
    }
    fn ptr(&mut self, p: &V, off: i64, o: &mut String) -> String {
        let b = self.val(p, 'p', o);
        if off == 0 {
            return b;
        }
        let k = self.fresh();
        let _ = writeln!(o, "  %p{k} = getelementptr i8, ptr {b}, i64 {off}");
        format!("%p{k}")
    }
    fn block(&mut self, body: &[Ins], o: &mut String) {
        for i in body {
            match i {
                Ins::Call { f, args, dst } => {
                    self.used.insert(*f);
                    let s = &self.sg.0[*f];
                    let (name, at, ret) = (s.name, s.args, s.ret);
                    let a: Vec<String> =
                        args.iter().zip(at.chars()).map(|(v, t)| format!("{} {}", ty(t), self.val(v, t, o))).collect();
                    if let Some(d) = dst {
                        let _ = write!(o, "  %r{d} =");
                    } else {
                        o.push_str(" ");
                    }
                    let _ = writeln!(o, " call {} @{name}({})", ty(ret), a.join(", "));
                }
                Ins::Load { dst, ptr, off } => {
                    let p = self.ptr(ptr, *off, o);
                    let _ = writeln!(o, "  %r{dst} = load {}, ptr {p}, align 1", ty(self.regs[*dst]));
                }
                Ins::Store { ptr, off, val, ty: t } => {
                    let p = self.ptr(ptr, *off, o);
                    let v = self.val(val, *t, o);
                    let _ = writeln!(o, "  store {} {v}, ptr {p}, align 1", ty(*t));
                }
                Ins::Zext { dst, src } => {
                    let _ = writeln!(o, "  %r{dst} = zext {} %r{src} to i64", ty(self.regs[*src]));
                }
                Ins::If { cond, then, els } => {
                    let k = self.fresh();
                    let c = self.val(cond, 'b', o);
                    let _ = writeln!(o, "  br i1 {c}, label %t{k}, label %e{k}\nt{k}:");
                    self.block(then, o);
                    let _ = writeln!(o, "  br label %j{k}\ne{k}:");
                    self.block(els, o);
                    let _ = writeln!(o, "  br label %j{k}\nj{k}:");
                }
                Ins::Dead { body } => {
                    let k = self.fresh();
                    let _ = writeln!(o, "  br i1 false, label %d{k}, label %j{k}\nd{k}:");
                    self.block(body, o);
                    let _ = writeln!(o, "  br label %j{k}\nj{k}:");
                }
                Ins::Loop { n, body } => {
                    let k = self.fresh();
                    let _ = writeln!(self.allocas, "  %c{k} = alloca i64, align 8");
                    let _ = writeln!(o, "  store i64 0, ptr %c{k}, align 8\n  br label %l{k}\nl{k}:");
                    self.block(body, o);
                    let _ = writeln!(
                        o,
                        "  %i{k} = load i64, ptr %c{k}, align 8\n  %k{k} = add i64 %i{k}, 1\n  store i64 %k{k}, ptr %c{k}, align 8\n  \
                         %m{k} = icmp ult i64 %k{k}, {n}\n  br i1 %m{k}, label %l{k}, label %j{k}\nj{k}:"
                    );
                }
                Ins::Sub { body } => {
                    let k = self.fresh();
                    let outer = std::mem::take(&mut self.allocas);
                    let mut b = String::new();
                    self.block(body, &mut b);
                    let a = std::mem::replace(&mut self.allocas, outer);
                    let _ = writeln!(self.subs, "define internal void @sub{k}() {{\n{a}  br label %x\nx:\n{b}  ret void\n}}\n");
                    let _ = writeln!(o, "  call void @sub{k}()");
                }
            }
        }
    }
    /// one function definition; `head` is everything up to the opening brace
    pub fn function(&mut self, head: &str, parts: &[&[Ins]], ret: &str) -> String {
        self.allocas.clear();
        let mut b = String::new();
        for p in parts {
            self.block(p, &mut b);
        }
        format!("{head} {{\n{}  br label %x\nx:\n{b}  {ret}\n}}\n\n", self.allocas)
    }
    /// helper functions, constants and declarations
    pub fn rest(&mut self, legacy: bool, callables: bool) -> String {
        let mut o = std::mem::take(&mut self.subs);
        for (i, s) in self.strs.iter().enumerate() {
            let _ = writeln!(o, "@s{i} = internal constant [{} x i8] c\"{}\\00\"", s.len() + 1, hexstr(s));
        }
        if callables {
            let rec = if legacy { "(i64 %w)" } else { "(i64 %w, ptr null)" };
            self.used.insert(self.sg.find("__quantum__rt__int_record_output", if legacy { 1 } else { 2 }));
            self.used.insert(self.sg.find("__quantum__rt__array_get_size_1d", 1));
            self.used.insert(self.sg.find("__quantum__rt__tuple_update_reference_count", 2));
            self.used.insert(self.sg.find("__quantum__rt__tuple_update_alias_count", 2));
            for (k, n) in ["body", "adj", "ctl", "ctladj"].iter().enumerate() {
                let _ = writeln!(o, "define internal void @e_{n}(ptr %cap, ptr %arg, ptr %res) {{");
                let _ = writeln!(o, "  %c = load i64, ptr %cap, align 1");
                if k < 2 {
                    let _ = writeln!(o, "  %v = load i64, ptr %arg, align 1\n  %z = add i64 0, 0");
                } else {
                    let _ = writeln!(
                        o,
                        "  %a = load ptr, ptr %arg, align 1\n  %z = call i64 @__quantum__rt__array_get_size_1d(ptr %a)\n  \
                         %p = getelementptr i8, ptr %arg, i64 8\n  %q = load ptr, ptr %p, align 1\n  %v = load i64, ptr %q, align 1"
                    );
                }
                let _ = writeln!(
                    o,
                    "  %x = mul i64 %v, 1000\n  %y = mul i64 %z, 100\n  %s = add i64 %x, %y\n  %t = add i64 %s, {k}\n  %cc = mul i64 %c, 10\n  \
                     %w = add i64 %t, %cc\n  call void @__quantum__rt__int_record_output{rec}\n  store i64 %w, ptr %res, align 1\n  ret void\n}}"
                );
            }
            for (k, n, f) in [(1, "ref", "reference"), (2, "ali", "alias")] {
                let _ = writeln!(
                    o,
                    "define internal void @m_{n}(ptr %cap, i32 %n) {{\n  %x = sext i32 %n to i64\n  %y = mul i64 %x, 10\n  %w = add i64 %y, {k}\n  \
                     call void @__quantum__rt__int_record_output{rec}\n  call void @__quantum__rt__tuple_update_{f}_count(ptr %cap, i32 %n)\n  ret void\n}}"
                );
            }
            o.push_str("@functions = internal constant [4 x ptr] [ptr @e_body, ptr @e_adj, ptr @e_ctl, ptr @e_ctladj]\n");
            o.push_str("@memory = internal constant [2 x ptr] [ptr @m_ref, ptr @m_ali]\n");
        }
        for f in &self.used {
            let s = &self.sg.0[*f];
            let a: Vec<&str> = s.args.chars().map(ty).collect();
            let _ = writeln!(o, "declare {} @{}({})", ty(s.ret), s.name, a.join(", "));
        }
        o
    }
}

/// The program as a module whose only entry point is `main`.
pub fn module(sg: &Sigs, p: &Prog, attrs: &str) -> String {
    let mut e = Emit::new(sg, &p.regs);
    let mut parts: Vec<&[Ins]> = vec![&p.pre];
    parts.extend(p.snips.iter().map(Vec::as_slice));
    parts.push(&p.post);
    let f = e.function("define void @main() #0", &parts, "ret void");
    let rest = e.rest(p.legacy, p.callables);
    format!("{f}{rest}\nattributes #0 = {{ {attrs} }}\n")
}

// ---------------------------------------------------------------- direct execution

thread_local! {
    static LEGACY: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

fn record(w: i64) {
    use qir_stdlib::output_recording as out;
    if LEGACY.with(std::cell::Cell::get) {
        out::legacy::__quantum__rt__int_record_output(w);
    } else {
        unsafe { out::__quantum__rt__int_record_output(w, std::ptr::null_mut()) };
    }
}

unsafe fn entry(k: i64, cap: *const u8, arg: *const u8, res: *mut u8) {
    unsafe {
        let c = cap.cast::<i64>().read_unaligned();
        let (v, z) = if k < 2 {
            (arg.cast::<i64>().read_unaligned(), 0)
        } else {
            let a = arg.cast::<*const qir_backend::QirArray>().read_unaligned();
            let z = qir_stdlib::arrays::__quantum__rt__array_get_size_1d(a) as i64;
            let q = arg.add(8).cast::<*const i64>().read_unaligned();
            (q.read_unaligned(), z)
        };
        let w = v * 1000 + z * 100 + k + c * 10;
        record(w);
        res.cast::<i64>().write_unaligned(w);
    }
}

extern "C" fn e0(c: *const u8, a: *const u8, r: *mut u8) {
    unsafe { entry(0, c, a, r) }
}
extern "C" fn e1(c: *const u8, a: *const u8, r: *mut u8) {
    unsafe { entry(1, c, a, r) }
}
extern "C" fn e2(c: *const u8, a: *const u8, r: *mut u8) {
    unsafe { entry(2, c, a, r) }
}
extern "C" fn e3(c: *const u8, a: *const u8, r: *mut u8) {
    unsafe { entry(3, c, a, r) }
}
extern "C" fn m_ref(c: *mut *const Vec<u8>, n: i32) {
    record(i64::from(n) * 10 + 1);
    unsafe { qir_stdlib::tuples::__quantum__rt__tuple_update_reference_count(c, n) }
}
extern "C" fn m_ali(c: *mut *const Vec<u8>, n: i32) {
    record(i64::from(n) * 10 + 2);
    unsafe { qir_stdlib::tuples::__quantum__rt__tuple_update_alias_count(c, n) }
}

struct Direct<'a> {
    sg: &'a Sigs,
    regs: Vec<u64>,
    types: &'a [char],
    keep: Vec<CString>,
    funcs: [usize; 4],
    mems: [usize; 2],
}

type FI = unsafe extern "C" fn(u64, u64, u64, u64, u64, u64, f64, f64) -> u64;
type FD = unsafe extern "C" fn(u64, u64, u64, u64, u64, u64, f64, f64) -> f64;

impl Direct<'_> {
    fn val(&mut self, v: &V) -> u64 {
        match v {
            V::R(i) => self.regs[*i],
            V::I(i) => *i as u64,
            V::D(d) => d.to_bits(),
            V::B(b) => u64::from(*b),
            V::Q(i) => *i as u64,
            V::U(p) => u64::from(*p),
            V::Null | V::Range(..) => 0,
            V::FuncTable => self.funcs.as_ptr() as u64,
            V::MemTable => self.mems.as_ptr() as u64,
            V::Str(b) => {
                // bytes without interior NUL; kept until the end of the run
                self.keep.push(CString::new(b.clone()).unwrap());
                self.keep.last().unwrap().as_ptr() as u64
            }
        }
    }
    fn call(&mut self, f: usize, args: &[V], dst: Option<usize>) {
        let s = &self.sg.0[f];
        let (at, ret, addr) = (s.args, s.ret, s.addr);
        let mut ints = [0u64; 6];
        let mut dbls = [0f64; 2];
        let (mut ni, mut nd) = (0, 0);
        let mut range = None;
        for (v, t) in args.iter().zip(at.chars()) {
            let x = self.val(v);
            match t {
                'd' => {
                    dbls[nd] = f64::from_bits(x);
                    nd += 1;
                }
                'R' => {
                    if let V::Range(a, b, c) = v {
                        range = Some(qir_stdlib::range_support::Range { start: *a, step: *b, end: *c });
                    }
                }
                _ => {
                    ints[ni] = x;
                    ni += 1;
                }
            }
        }
        let out = unsafe {
            if let Some(r) = range {
                if at == "R" {
                    qir_stdlib::range_support::quantum__rt__range_to_string(r) as u64
                } else {
                    qir_stdlib::range_support::quantum__rt__array_slice_1d(ints[0] as *const _, r) as u64
                }
            } else if ret == 'd' {
                let g: FD = std::mem::transmute(addr);
                g(ints[0], ints[1], ints[2], ints[3], ints[4], ints[5], dbls[0], dbls[1]).to_bits()
            } else {
                let g: FI = std::mem::transmute(addr);
                g(ints[0], ints[1], ints[2], ints[3], ints[4], ints[5], dbls[0], dbls[1])
            }
        };
        if let Some(d) = dst {
            self.regs[d] = match ret {
                'b' => out & 1,
                'w' => out & 0xffff_ffff,
                _ => out,
            };
        }
    }
    fn block(&mut self, body: &[Ins], n: &mut u64) {
        for i in body {
            match i {
                Ins::Call { f, args, dst } => {
                    *n += 1;
                    self.call(*f, args, *dst);
                }
                Ins::Load { dst, ptr, off } => {
                    let p = (self.val(ptr) as *const u8).wrapping_offset(*off as isize);
                    self.regs[*dst] = unsafe {
                        if self.types[*dst] == 'c' { u64::from(p.read()) } else { p.cast::<u64>().read_unaligned() }
                    };
                }
                Ins::Store { ptr, off, val, ty } => {
                    let p = (self.val(ptr) as *mut u8).wrapping_offset(*off as isize);
                    let v = self.val(val);
                    unsafe {
                        if *ty == 'c' {
                            p.write(v as u8);
                        } else {
                            p.cast::<u64>().write_unaligned(v);
                        }
                    }
                }
                Ins::Zext { dst, src } => self.regs[*dst] = self.regs[*src],
                Ins::If { cond, then, els } => {
                    if self.val(cond) & 1 == 1 {
                        self.block(then, n);
                    } else {
                        self.block(els, n);
                    }
                }
                Ins::Dead { .. } => {}
                Ins::Loop { n: k, body } => {
                    for _ in 0..*k {
                        self.block(body, n);
                    }
                }
                Ins::Sub { body } => self.block(body, n),
            }
        }
    }
}

/// Runs the program by calling the runtime functions; returns the number of calls made.
pub fn execute(sg: &Sigs, p: &Prog) -> u64 {
    LEGACY.with(|l| l.set(p.legacy));
    let mut d = Direct {
        sg,
        regs: vec![0; p.regs.len()],
        types: &p.regs,
        keep: vec![],
        funcs: [e0 as *const c_void as usize, e1 as *const c_void as usize, e2 as *const c_void as usize, e3 as *const c_void as usize],
        mems: [m_ref as *const c_void as usize, m_ali as *const c_void as usize],
    };
    let mut n = 0;
    d.block(&p.pre, &mut n);
    for s in &p.snips {
        d.block(s, &mut n);
    }
    d.block(&p.post, &mut n);
    n
}

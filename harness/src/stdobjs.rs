//! Histories over reference-counted runtime objects, judged step by step against a model of their
//! contents, counts and memory.
use crate::alloc::{Live, live};
use crate::exact::Int;
use crate::rng::Rng;
use crate::stdcases::Log;
use qir_backend as q;
use qir_stdlib::range_support as rs;
use std::cell::{Cell, RefCell};
use std::ffi::{CString, c_char};
use std::ptr::null_mut;

// ---- memory balance ----------------------------------------------------------------------------

thread_local! {
    static BAL: Cell<(i64, i64)> = const { Cell::new((0, 0)) };
    static ADJ: Cell<(i64, i64)> = const { Cell::new((0, 0)) };
}
fn diff(a: Live, b: Live) -> (i64, i64) {
    (b.blocks - a.blocks, b.bytes - a.bytes)
}
/// Runs one runtime call and adds the memory it kept to the balance; memory kept by harness code
/// called back from it does not count.
pub fn rt<T>(f: impl FnOnce() -> T) -> T {
    let (a, j) = (live(), ADJ.get());
    let r = f();
    let (d, k) = (diff(a, live()), ADJ.get());
    let b = BAL.get();
    BAL.set((b.0 + d.0 - (k.0 - j.0), b.1 + d.1 - (k.1 - j.1)));
    r
}
/// Like `rt`, and reports the memory kept.
pub fn rt_d<T>(f: impl FnOnce() -> T) -> (T, (i64, i64)) {
    let b = BAL.get();
    let r = rt(f);
    let c = BAL.get();
    (r, (c.0 - b.0, c.1 - b.1))
}
pub fn balance_reset() {
    BAL.set((0, 0));
}
pub fn balance() -> (i64, i64) {
    BAL.get()
}
/// memory that the interface documents as given away
pub fn forgive(d: (i64, i64)) {
    let b = BAL.get();
    BAL.set((b.0 - d.0, b.1 - d.1));
}

// ---- callables ---------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
pub struct Called {
    pub table: usize,
    pub entry: usize,
    pub cap: usize,
    pub args_null: bool,
    pub ctls: Vec<u64>,
    pub words: Vec<u64>,
    pub res: usize,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Captured {
    pub table: usize,
    pub which: usize,
    pub cap: usize,
    pub amount: i32,
}
type Entry = extern "C" fn(*mut u8, *mut u8, *mut u8);
type MemFn = extern "C" fn(*mut u8, i32);
thread_local! {
    static CALLED: RefCell<Vec<Called>> = const { RefCell::new(vec![]) };
    static CAPTURED: RefCell<Vec<Captured>> = const { RefCell::new(vec![]) };
    static WORDS: RefCell<Vec<usize>> = const { RefCell::new(vec![]) };
    static SCRIBBLE: Cell<bool> = const { Cell::new(false) };
    /// the running callable, changed by its callee: (callable, adjoint requests, controlled requests)
    static FUNCTOR: Cell<(usize, u32, u32)> = const { Cell::new((0, 0, 0)) };
    static RETAIN: Cell<bool> = const { Cell::new(false) };
    static KEPT: RefCell<Vec<(usize, usize, usize, Vec<u64>, Vec<u64>)>> = const { RefCell::new(vec![]) };
    static INNER: RefCell<Vec<(usize, usize, usize, usize)>> = const { RefCell::new(vec![]) };
    static ANSWER: Cell<u64> = const { Cell::new(0) };
}
unsafe fn words_at(p: *const u8, from: usize, n: usize) -> Vec<u64> {
    (0..n).map(|i| unsafe { p.cast::<u64>().add(from + i).read_unaligned() }).collect()
}
unsafe fn array_words(a: *const q::QirArray) -> Vec<u64> {
    unsafe {
        let n = q::__quantum__rt__array_get_size_1d(a);
        (0..n).map(|i| q::__quantum__rt__array_get_element_ptr_1d(a, i).cast::<u64>().read_unaligned()).collect()
    }
}
extern "C" fn entry<const T: usize, const S: usize>(cap: *mut u8, args: *mut u8, res: *mut u8) {
    let (l0, adj0) = (live(), ADJ.get());
    let n = WORDS.with(|w| w.borrow_mut().pop().unwrap_or(0));
    let controlled = S >= 2;
    let mut c = Called { table: T, entry: S, cap: cap as usize, args_null: args.is_null(), ctls: vec![], words: vec![], res: res as usize };
    unsafe {
        let mut arr = 0usize;
        if !args.is_null() {
            if controlled {
                arr = args.cast::<usize>().read_unaligned();
                c.ctls = array_words(arr as *const q::QirArray);
            }
            c.words = words_at(args, usize::from(controlled), n);
            if RETAIN.get() {
                q::__quantum__rt__tuple_update_reference_count(args.cast(), 1);
                if controlled {
                    q::__quantum__rt__array_update_reference_count(arr as *const q::QirArray, 1);
                }
                KEPT.with(|k| k.borrow_mut().push((args as usize, arr, usize::from(controlled), c.ctls.clone(), c.words.clone())));
            } else if SCRIBBLE.get() {
                // its own copy, the pointer to the control array included
                if controlled {
                    args.cast::<u64>().write_unaligned(0);
                }
                for i in 0..n {
                    args.cast::<u64>().add(usize::from(controlled) + i).write_unaligned(0xFEED_FACE_0000_0000 + i as u64);
                }
            }
        }
        if !res.is_null() {
            res.cast::<u64>().write_unaligned(ANSWER.get());
        }
    }
    CALLED.with(|l| l.borrow_mut().push(c));
    let (own, adjoints, controls) = FUNCTOR.replace((0, 0, 0));
    rt(|| unsafe {
        for _ in 0..adjoints {
            q::__quantum__rt__callable_make_adjoint(own as *const q::callables::Callable);
        }
        for _ in 0..controls {
            q::__quantum__rt__callable_make_controlled(own as *const q::callables::Callable);
        }
    });
    if let Some((callable, iargs, ires, iw)) = INNER.with(|i| i.borrow_mut().pop()) {
        WORDS.with(|w| w.borrow_mut().push(iw));
        rt(|| unsafe {
            q::__quantum__rt__callable_invoke(callable as *const q::callables::Callable, iargs as *mut u8, ires as *mut u8);
        });
    }
    let d = diff(l0, live());
    ADJ.set((adj0.0 + d.0, adj0.1 + d.1));
}
extern "C" fn memfn<const T: usize, const W: usize>(cap: *mut u8, amount: i32) {
    let (l0, adj0) = (live(), ADJ.get());
    CAPTURED.with(|l| {
        let mut l = l.borrow_mut();
        if l.len() < 1000 {
            l.push(Captured { table: T, which: W, cap: cap as usize, amount });
        }
    });
    let d = diff(l0, live());
    ADJ.set((adj0.0 + d.0, adj0.1 + d.1));
}
static TABLES: [[Entry; 4]; 3] = [
    [entry::<0, 0>, entry::<0, 1>, entry::<0, 2>, entry::<0, 3>],
    [entry::<1, 0>, entry::<1, 1>, entry::<1, 2>, entry::<1, 3>],
    [entry::<2, 0>, entry::<2, 1>, entry::<2, 2>, entry::<2, 3>],
];
static MEMS: [[Option<MemFn>; 2]; 4] = [
    [Some(memfn::<0, 0>), Some(memfn::<0, 1>)],
    [Some(memfn::<1, 0>), None],
    [None, Some(memfn::<2, 1>)],
    [None, None],
];

// ---- objects -----------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K {
    Arr,
    Tup,
    Str,
    Big,
    Call,
}
#[derive(Clone)]
pub struct Obj {
    pub id: usize,
    pub k: K,
    pub p: *const u8,
    pub strong: i64,
    pub alias: i64,
    pub elem: usize,
    pub data: Vec<u8>,
    pub base: usize,
    pub adj: bool,
    pub ctls: u32,
    pub table: usize,
    pub mem: Option<usize>,
    pub cap: Option<usize>, // id of the capture tuple's object
    pub cap_ptr: usize,
}

pub struct W {
    pub create_arr: f64,
    pub create_tup: f64,
    pub create_str: f64,
    pub create_big: f64,
    pub create_call: f64,
    pub copy: f64,
    pub concat: f64,
    pub slice: f64,
    pub count: f64,
    pub alias: f64,
    pub read: f64,
    pub write: f64,
    pub functor: f64,
    pub invoke: f64,
    pub capture: f64,
    pub text: f64,
    pub max_live: usize,
}
pub const MEMORY: W = W {
    create_arr: 2.0, create_tup: 2.0, create_str: 1.5, create_big: 1.5, create_call: 1.5, copy: 4.0, concat: 2.0, slice: 2.0, count: 4.0, alias: 3.0,
    read: 3.0, write: 2.0, functor: 2.0, invoke: 3.0, capture: 0.7, text: 2.0, max_live: 24,
};
pub const ARRAYS: W = W {
    create_arr: 3.0, create_tup: 0.0, create_str: 0.0, create_big: 0.0, create_call: 0.0, copy: 1.0, concat: 4.0, slice: 8.0, count: 2.0, alias: 1.0,
    read: 2.0, write: 4.0, functor: 0.0, invoke: 0.0, capture: 0.0, text: 0.0, max_live: 12,
};
pub const COPIES: W = W {
    create_arr: 1.5, create_tup: 1.5, create_str: 0.0, create_big: 0.0, create_call: 1.5, copy: 8.0, concat: 0.3, slice: 0.3, count: 4.0, alias: 6.0,
    read: 1.0, write: 5.0, functor: 3.0, invoke: 2.0, capture: 0.3, text: 0.0, max_live: 16,
};
pub const CALLS: W = W {
    create_arr: 0.3, create_tup: 1.0, create_str: 0.0, create_big: 0.0, create_call: 2.0, copy: 3.0, concat: 0.0, slice: 0.0, count: 1.5, alias: 1.5,
    read: 0.5, write: 0.3, functor: 6.0, invoke: 9.0, capture: 3.0, text: 0.0, max_live: 12,
};

fn bad<T>(s: impl Into<String>) -> Result<T, String> {
    Err(s.into())
}

pub struct Hist<'a> {
    pub r: &'a mut Rng,
    pub log: &'a mut Log,
    pub w: &'static W,
    pub objs: Vec<Obj>,
    next: usize,
}

impl Hist<'_> {
    fn fresh(&mut self, k: K, p: *const u8, elem: usize, data: Vec<u8>) -> Result<usize, String> {
        if p.is_null() {
            return bad(format!("{k:?} creation returned null"));
        }
        if let Some(o) = self.objs.iter().find(|o| o.p == p && o.k == k) {
            return bad(format!("a new {k:?} has the address of live object #{}", o.id));
        }
        self.next += 1;
        let mut o = Obj {
            id: self.next, k, p, strong: 1, alias: 0, elem, data, base: 0, adj: false, ctls: 0, table: 0, mem: None, cap: None, cap_ptr: 0,
        };
        if k == K::Arr && !o.data.is_empty() {
            o.base = rt(|| unsafe { q::__quantum__rt__array_get_element_ptr_1d(p.cast(), 0) }) as usize;
        }
        if k == K::Tup {
            o.base = p as usize;
        }
        // storage of distinct objects never overlaps
        if matches!(k, K::Arr | K::Tup) && !o.data.is_empty() {
            let (a, b) = (o.base, o.base + o.data.len());
            for x in self.objs.iter().filter(|x| matches!(x.k, K::Arr | K::Tup) && !x.data.is_empty()) {
                if a < x.base + x.data.len() && x.base < b {
                    return bad(format!("the storage of a new {k:?} overlaps that of live object #{}", x.id));
                }
            }
        }
        self.objs.push(o);
        self.log.n("objects_created", 1);
        Ok(self.objs.len() - 1)
    }
    fn make_arr(&mut self, elem: usize, n: usize) -> Result<usize, String> {
        let p = rt(|| q::__quantum__rt__array_create_1d(elem as u32, n as u64));
        let i = self.fresh(K::Arr, p.cast(), elem, vec![0; elem * n])?;
        self.log.step(format!("#{} = array(elem {elem}, count {n})", self.objs[i].id));
        self.check(i)?;
        Ok(i)
    }
    fn make_tup(&mut self, size: usize) -> Result<usize, String> {
        let p = rt(|| q::__quantum__rt__tuple_create(size as u64));
        let i = self.fresh(K::Tup, p.cast(), 1, vec![0; size])?;
        self.log.step(format!("#{} = tuple({size})", self.objs[i].id));
        self.check(i)?;
        Ok(i)
    }
    /// reads an object through the interface and compares it with the model
    pub fn check(&mut self, i: usize) -> Result<(), String> {
        let o = self.objs[i].clone();
        self.log.n("contents_judged", 1);
        unsafe {
            match o.k {
                K::Arr => {
                    let a: *const q::QirArray = o.p.cast();
                    let n = rt(|| q::__quantum__rt__array_get_size_1d(a)) as usize;
                    if n * o.elem != o.data.len() {
                        return bad(format!("array #{} has size {n}, expected {}", o.id, o.data.len() / o.elem));
                    }
                    for e in 0..n {
                        let p = rt(|| q::__quantum__rt__array_get_element_ptr_1d(a, e as u64)).cast::<u8>();
                        if p as usize != o.base + e * o.elem {
                            return bad(format!("element {e} of array #{} is at offset {} from element 0 as first seen, expected {}", o.id, (p as usize).wrapping_sub(o.base) as i64, e * o.elem));
                        }
                        let got = std::slice::from_raw_parts(p, o.elem);
                        if got != &o.data[e * o.elem..(e + 1) * o.elem] {
                            return bad(format!("element {e} of array #{} (elem size {}, count {n}) is {got:?}, expected {:?}", o.id, o.elem, &o.data[e * o.elem..(e + 1) * o.elem]));
                        }
                    }
                    self.log.n("elements_judged", n as u64);
                }
                K::Tup => {
                    let got = std::slice::from_raw_parts(o.p, o.data.len());
                    if got != &o.data[..] {
                        return bad(format!("tuple #{} holds {got:?}, expected {:?}", o.id, o.data));
                    }
                }
                K::Str => {
                    let s: *const CString = o.p.cast();
                    let n = rt(|| q::__quantum__rt__string_get_length(s)) as usize;
                    let d = rt(|| q::__quantum__rt__string_get_data(s)).cast::<u8>();
                    if n != o.data.len() {
                        return bad(format!("string #{} has length {n}, expected {}", o.id, o.data.len()));
                    }
                    let got = std::slice::from_raw_parts(d, n + 1);
                    if got[..n] != o.data[..] || got[n] != 0 {
                        return bad(format!("string #{} holds {got:?}, expected {:?} and a zero", o.id, o.data));
                    }
                }
                K::Big => {
                    let want = Int::from_bytes(&o.data).text();
                    let s = rt(|| q::strings::__quantum__rt__bigint_to_string(o.p.cast()));
                    let got = str_bytes(s);
                    rt(|| q::__quantum__rt__string_update_reference_count(s, -1));
                    if got != want.as_bytes() {
                        return bad(format!("big integer #{} reads {}, expected {want}", o.id, String::from_utf8_lossy(&got)));
                    }
                }
                K::Call => self.invoke(i, false)?,
            }
        }
        Ok(())
    }
    fn update(&mut self, i: usize, alias: bool, by: i32) {
        let o = &self.objs[i];
        let p = o.p;
        unsafe {
            rt(|| match (o.k, alias) {
                (K::Arr, false) => q::__quantum__rt__array_update_reference_count(p.cast(), by),
                (K::Arr, true) => q::__quantum__rt__array_update_alias_count(p.cast(), by),
                (K::Tup, false) => q::__quantum__rt__tuple_update_reference_count(p as *mut _, by),
                (K::Tup, true) => q::__quantum__rt__tuple_update_alias_count(p as *mut _, by),
                (K::Str, _) => q::__quantum__rt__string_update_reference_count(p.cast(), by),
                (K::Big, _) => q::__quantum__rt__bigint_update_reference_count(p.cast(), by),
                (K::Call, false) => q::__quantum__rt__callable_update_reference_count(p.cast(), by),
                (K::Call, true) => q::__quantum__rt__callable_update_alias_count(p.cast(), by),
            });
        }
    }
    /// changes the reference count and watches whether the object's memory goes away exactly at zero
    pub fn refs(&mut self, i: usize, by: i32) -> Result<(), String> {
        let (k, id) = (self.objs[i].k, self.objs[i].id);
        let after = self.objs[i].strong + i64::from(by);
        assert!(after >= 0);
        let mut a = self.objs[i].alias;
        if after == 0 && a > 0 {
            // aliases go before the last reference
            self.log.step(format!("#{id} alias {}", -a));
            self.update(i, true, -(a as i32));
            self.objs[i].alias = 0;
            a = 0;
        }
        let _ = a;
        self.log.step(format!("#{id} refs {by:+} (to {after})"));
        let before = balance();
        self.update(i, false, by);
        let d = (balance().0 - before.0, balance().1 - before.1);
        self.objs[i].strong = after;
        if after > 0 {
            if d != (0, 0) {
                return bad(format!("changing the reference count of {k:?} #{id} by {by} to {after} changed allocated memory by {d:?} (blocks, bytes)"));
            }
        } else {
            if d.0 >= 0 {
                return bad(format!("giving up the last reference to {k:?} #{id} returned no memory ({d:?} blocks, bytes)"));
            }
            let o = self.objs.swap_remove(i);
            self.log.n("objects_freed", 1);
            if let Some(c) = o.cap {
                // the program releases the reference it took for the capture
                if let Some(j) = self.objs.iter().position(|x| x.id == c) {
                    self.refs(j, -1)?;
                }
            }
        }
        Ok(())
    }
    fn pick(&mut self, f: impl Fn(&Obj) -> bool) -> Option<usize> {
        let v: Vec<usize> = (0..self.objs.len()).filter(|i| f(&self.objs[*i])).collect();
        if v.is_empty() { None } else { Some(*self.r.pick(&v)) }
    }
    fn write(&mut self, i: usize) {
        let o = &self.objs[i];
        if o.data.is_empty() {
            return;
        }
        let (from, to) = match o.k {
            K::Arr => {
                let e = self.r.below(o.data.len() / o.elem);
                (e * o.elem, (e + 1) * o.elem)
            }
            _ => {
                let a = self.r.below(o.data.len());
                (a, (a + 1 + self.r.below(8)).min(o.data.len()))
            }
        };
        let bytes: Vec<u8> = (from..to).map(|_| self.r.u64() as u8).collect();
        self.log.step(format!("#{} bytes {from}..{to} = {bytes:?}", o.id));
        unsafe {
            let p = match o.k {
                K::Arr => rt(|| q::__quantum__rt__array_get_element_ptr_1d(o.p.cast(), (from / o.elem) as u64)).cast::<u8>(),
                _ => (o.p as *mut u8).add(from),
            };
            std::ptr::copy_nonoverlapping(bytes.as_ptr(), p, bytes.len());
        }
        self.objs[i].data[from..to].copy_from_slice(&bytes);
    }
    fn fill(&mut self, i: usize) {
        let o = &self.objs[i];
        if o.data.is_empty() {
            return;
        }
        let bytes: Vec<u8> = o.data.iter().map(|_| self.r.u64() as u8).collect();
        let base = match o.k {
            K::Arr => rt(|| unsafe { q::__quantum__rt__array_get_element_ptr_1d(o.p.cast(), 0) }).cast::<u8>(),
            _ => o.p as *mut u8,
        };
        unsafe { std::ptr::copy_nonoverlapping(bytes.as_ptr(), base, bytes.len()) };
        self.log.step(format!("#{} filled with random bytes", o.id));
        self.objs[i].data = bytes;
    }
    fn copy(&mut self, i: usize) -> Result<(), String> {
        let force = self.r.chance(0.45);
        let o = self.objs[i].clone();
        let share = !force && o.alias == 0;
        self.log.step(format!("copy of {:?} #{} force {force} (refs {}, alias {})", o.k, o.id, o.strong, o.alias));
        self.log.ctx(format!("copy {:?} force{force} alias{} refs{} empty{}", o.k, o.alias.min(3), o.strong.min(4), o.data.is_empty()));
        let p: *const u8 = unsafe {
            rt(|| match o.k {
                K::Arr => q::__quantum__rt__array_copy(o.p.cast(), force).cast(),
                K::Tup => q::__quantum__rt__tuple_copy(o.p as *mut _, force).cast(),
                _ => q::__quantum__rt__callable_copy(o.p.cast(), force).cast(),
            })
        };
        self.log.n("copies_judged", 1);
        if share {
            if p != o.p {
                return bad(format!("an unforced copy of unaliased {:?} #{} is a different object", o.k, o.id));
            }
            self.objs[i].strong += 1;
            self.log.n("copies_shared", 1);
        } else {
            if p == o.p {
                return bad(format!("a copy of {:?} #{} with force {force} and alias count {} is the same object", o.k, o.id, o.alias));
            }
            let j = self.fresh(o.k, p, o.elem, o.data.clone())?;
            let c = &mut self.objs[j];
            (c.adj, c.ctls, c.table, c.mem, c.cap_ptr) = (o.adj, o.ctls, o.table, o.mem, o.cap_ptr);
            if let Some(cap) = o.cap {
                // the copy holds its own reference to the capture, as compiled programs arrange
                c.cap = Some(cap);
                if let Some(t) = self.objs.iter().position(|x| x.id == cap) {
                    self.refs(t, 1)?;
                }
            }
            self.log.n("copies_independent", 1);
            self.check(j)?;
        }
        self.check(i)
    }
    fn slice(&mut self, i: usize) -> Result<(), String> {
        let o = self.objs[i].clone();
        let n = (o.data.len() / o.elem) as i64;
        let r = &mut *self.r;
        let (start, step, end) = match r.below(if n == 0 { 3 } else { 12 }) {
            // empty selections, with bounds anywhere
            0 => {
                let s = r.range(-3, n + 3);
                (s, r.range(1, 5), s - 1 - r.range(0, 4))
            }
            1 => {
                let s = r.range(-3, n + 3);
                (s, -r.range(1, 5), s + 1 + r.range(0, 4))
            }
            2 => *r.pick(&[
                (0, 1, -1),
                (0, 1, i64::MIN),
                (i64::MAX, 1, 0),
                (0, -1, i64::MAX),
                (i64::MIN, -1, 0),
                (i64::MIN, i64::MIN, i64::MAX),
                (i64::MAX, i64::MAX, i64::MIN),
                (n, 1, n - 1),
            ]),
            3 | 4 => {
                let a = r.range(0, n - 1);
                (a, 1, r.range(a, n - 1))
            }
            5 | 6 => {
                let a = r.range(0, n - 1);
                (a, r.range(1, n.min(9)), r.range(a, n - 1))
            }
            7 | 8 => {
                let a = r.range(0, n - 1);
                (a, -r.range(1, n.min(9)), r.range(0, a))
            }
            9 => {
                // the end lies beyond the array, short of the next selected element
                let a = r.range(0, n - 1);
                let st = r.range(1, 6);
                let last = a + (n - 1 - a) / st * st;
                (a, st, r.range(last, last + st - 1))
            }
            10 => {
                let a = r.range(0, n - 1);
                let st = r.range(1, 6);
                let last = a - a / st * st;
                (a, -st, r.range(last - st + 1, last))
            }
            _ => {
                // one element: steps of any size, bounds of any size short of a second element
                let a = r.range(0, n - 1);
                match r.below(4) {
                    0 => (a, i64::MAX, n - 1),
                    1 => (a, i64::MIN, 0),
                    2 => (a, i64::MAX, r.range(a, i64::MAX - 1)),
                    _ => (a, i64::MAX / 8 + r.range(n, n + 1000), i64::MAX / 8 + a),
                }
            }
        };
        let mut want = vec![];
        let mut x = i128::from(start);
        let mut count = 0u64;
        while if step > 0 { x <= i128::from(end) } else { x >= i128::from(end) } {
            let at = x as usize * o.elem;
            want.extend_from_slice(&o.data[at..at + o.elem]);
            x += i128::from(step);
            count += 1;
        }
        self.log.step(format!("slice of array #{} (elem {}, count {n}) by {start}..{step}..{end}", o.id, o.elem));
        self.log.ctx(format!("slice elem{} count{} sel{} step{}", o.elem, n.min(6), count.min(5), step.clamp(-7, 7)));
        let p = rt(|| unsafe { rs::quantum__rt__array_slice_1d(o.p.cast(), rs::Range { start, step, end }) });
        let got_n = rt(|| unsafe { q::__quantum__rt__array_get_size_1d(p) });
        if got_n != count {
            return bad(format!("slice {start}..{step}..{end} of an array of {n} has {got_n} elements, expected {count}"));
        }
        let j = self.fresh(K::Arr, p.cast(), o.elem, want)?;
        self.check(j)?;
        self.check(i)?;
        self.log.n("slices_judged", 1);
        if count == 0 {
            self.log.n("empty_slices", 1);
        }
        if step < 0 {
            self.log.n("backward_slices", 1);
        }
        Ok(())
    }
    fn concat(&mut self, i: usize, j: usize) -> Result<(), String> {
        let (a, b) = (self.objs[i].clone(), self.objs[j].clone());
        self.log.step(format!("concatenation of {:?} #{} ({} bytes) and #{} ({} bytes)", a.k, a.id, a.data.len(), b.id, b.data.len()));
        self.log.ctx(format!("concat {:?} elem{} {} {} same{}", a.k, a.elem, (a.data.len() / a.elem).min(4), (b.data.len() / b.elem).min(4), i == j));
        let p: *const u8 = unsafe {
            rt(|| match a.k {
                K::Arr => q::__quantum__rt__array_concatenate(a.p.cast(), b.p.cast()).cast(),
                _ => q::__quantum__rt__string_concatenate(a.p.cast(), b.p.cast()).cast(),
            })
        };
        let mut want = a.data.clone();
        want.extend_from_slice(&b.data);
        let k = self.fresh(a.k, p, a.elem, want)?;
        self.check(k)?;
        self.check(i)?;
        self.check(j)?;
        self.log.n("concatenations_judged", 1);
        Ok(())
    }
    fn make_call(&mut self) -> Result<usize, String> {
        let table = self.r.below(3);
        let mem = if self.r.chance(0.7) { Some(self.r.below(4)) } else { None };
        let cap = if self.r.chance(0.5) { self.pick(|o| o.k == K::Tup) } else { None };
        let cp = cap.map_or(null_mut(), |c| self.objs[c].p as *mut u8);
        let ft = TABLES[table].as_ptr() as *mut *mut u8;
        let mt = mem.map_or(null_mut(), |m| MEMS[m].as_ptr() as *mut *mut u8);
        let p = rt(|| q::__quantum__rt__callable_create(ft, mt, cp));
        let i = self.fresh(K::Call, p.cast(), 1, vec![])?;
        let cap_id = cap.map(|c| self.objs[c].id);
        let o = &mut self.objs[i];
        (o.table, o.mem, o.cap, o.cap_ptr) = (table, mem, cap_id, cp as usize);
        self.log.step(format!("#{} = callable(table {table}, memory table {mem:?}, capture {cap_id:?})", self.objs[i].id));
        if let Some(c) = cap {
            self.refs(c, 1)?;
        }
        Ok(i)
    }
    fn raw_array(&mut self, v: &[u64]) -> *const q::QirArray {
        let a = rt(|| q::__quantum__rt__array_create_1d(8, v.len() as u64));
        for (i, x) in v.iter().enumerate() {
            unsafe { rt(|| q::__quantum__rt__array_get_element_ptr_1d(a, i as u64)).cast::<u64>().write_unaligned(*x) };
        }
        a
    }
    fn raw_tuple(&mut self, v: &[u64]) -> *mut u8 {
        let t = rt(|| q::__quantum__rt__tuple_create(8 * v.len() as u64)).cast::<u8>();
        for (i, x) in v.iter().enumerate() {
            unsafe { t.cast::<u64>().add(i).write_unaligned(*x) };
        }
        t
    }
    /// arguments for an invocation: (outer tuple, tuples with contents, arrays with contents and reference count, joined controls)
    #[allow(clippy::type_complexity)]
    fn arguments(&mut self, k: usize, words: &[u64]) -> (*mut u8, Vec<(*mut u8, Vec<u64>)>, Vec<(*const q::QirArray, Vec<u64>, i32)>, Vec<u64>) {
        let mut tuples = vec![];
        let mut arrays: Vec<(*const q::QirArray, Vec<u64>, i32)> = vec![];
        let mut joined: Vec<u64> = vec![];
        let mut used = vec![];
        for _ in 0..k {
            let reuse = !arrays.is_empty() && self.r.chance(0.15);
            if reuse {
                let j = self.r.below(arrays.len());
                used.push(j);
            } else {
                let n = if self.r.chance(0.02) { self.r.below(400) } else { self.r.below(5) };
                let v: Vec<u64> = (0..n).map(|_| self.r.u64() >> 1).collect();
                self.log.max("longest_control_array", n as u64);
                let a = self.raw_array(&v);
                let mut s = 1;
                if self.r.chance(0.2) {
                    rt(|| unsafe { q::__quantum__rt__array_update_reference_count(a, 1) });
                    s = 2;
                }
                used.push(arrays.len());
                arrays.push((a, v, s));
            }
            joined.extend_from_slice(&arrays[*used.last().unwrap()].1);
        }
        let mut inner: Vec<u64> = words.to_vec();
        if k > 0 {
            inner.insert(0, arrays[used[k - 1]].0 as u64);
        }
        let mut t = self.raw_tuple(&inner);
        tuples.push((t, inner));
        for l in (0..k.saturating_sub(1)).rev() {
            let v = vec![arrays[used[l]].0 as u64, t as u64];
            t = self.raw_tuple(&v);
            tuples.push((t, v));
        }
        (t, tuples, arrays, joined)
    }
    /// invokes a callable with fresh arguments and judges the entry reached, its arguments, and the caller's data
    pub fn invoke(&mut self, i: usize, fancy: bool) -> Result<(), String> {
        let o = self.objs[i].clone();
        let k = o.ctls as usize;
        let null_args = k == 0 && self.r.chance(0.15);
        let nw = if null_args { 0 } else { self.r.below(6) };
        let words: Vec<u64> = (0..nw).map(|_| self.r.u64()).collect();
        let (args, tuples, arrays, joined) = if null_args { (null_mut(), vec![], vec![], vec![]) } else { self.arguments(k, &words) };
        let res = if self.r.chance(0.6) { self.raw_tuple(&[0, 77]) } else { null_mut() };
        let mode = if fancy { self.r.below(5) } else { 0 };
        let alias_ctl = fancy && !arrays.is_empty() && self.r.chance(0.3);
        if alias_ctl {
            rt(|| unsafe { q::__quantum__rt__array_update_alias_count(arrays[0].0, 1) });
        }
        let alias_args = fancy && !null_args && self.r.chance(0.2);
        if alias_args {
            rt(|| unsafe { q::__quantum__rt__tuple_update_alias_count(args.cast(), 1) });
        }
        self.log.step(format!(
            "invoke callable #{} (adjoint {}, controlled {k} times) with {} words, controls {:?}{}",
            o.id, o.adj, nw, arrays.iter().map(|a| a.1.len()).collect::<Vec<_>>(), ["", ", callee overwrites its arguments", ", callee keeps its arguments", ", callee invokes another", ", callee changes the functors of the callable"][mode]
        ));
        self.log.ctx(format!("invoke adj{} k{} null{null_args} w{} ctls{} mode{mode} cap{}", o.adj, k.min(5), nw.min(3), joined.len().min(4), o.cap.is_some()));
        let inner = if mode == 3 { self.pick(|x| x.k == K::Call) } else { None };
        let mut inner_built = None;
        if let Some(j) = inner {
            let ij = self.objs[j].clone();
            let iw: Vec<u64> = (0..self.r.below(4)).map(|_| self.r.u64()).collect();
            let b = self.arguments(ij.ctls as usize, &iw);
            INNER.with(|v| v.borrow_mut().push((ij.p as usize, b.0 as usize, 0, iw.len())));
            inner_built = Some((ij, iw, b));
        }
        if mode == 4 {
            let (a, c) = (self.r.below(3) as u32, if o.ctls < 6 { self.r.below(2) as u32 } else { 0 });
            FUNCTOR.set((o.p as usize, a, c));
            self.objs[i].adj ^= a % 2 == 1;
            self.objs[i].ctls += c;
            self.log.n("functors_changed_by_the_callee", u64::from(a + c));
        }
        SCRIBBLE.set(mode == 1);
        RETAIN.set(mode == 2);
        CALLED.with(|c| c.borrow_mut().clear());
        WORDS.with(|w| {
            w.borrow_mut().clear();
            w.borrow_mut().push(nw);
        });
        let answer = self.r.u64();
        ANSWER.set(answer);
        rt(|| unsafe { q::__quantum__rt__callable_invoke(o.p.cast(), args, res) });
        SCRIBBLE.set(false);
        RETAIN.set(false);
        INNER.with(|v| v.borrow_mut().clear());
        let calls = CALLED.with(|c| std::mem::take(&mut *c.borrow_mut()));
        let mut want = vec![Called {
            table: o.table,
            entry: usize::from(o.adj) + if k > 0 { 2 } else { 0 },
            cap: o.cap_ptr,
            args_null: null_args,
            ctls: joined,
            words: words.clone(),
            res: res as usize,
        }];
        if let Some((ij, iw, b)) = &inner_built {
            want.push(Called {
                table: ij.table,
                entry: usize::from(ij.adj) + if ij.ctls > 0 { 2 } else { 0 },
                cap: ij.cap_ptr,
                args_null: false,
                ctls: b.3.clone(),
                words: iw.clone(),
                res: 0,
            });
        }
        self.log.n("invocations_judged", want.len() as u64);
        if k > 1 {
            self.log.n("nested_control_invocations", 1);
        }
        if calls != want {
            return bad(format!("invoking callable #{} (adjoint {}, controlled {k}) reached {calls:?}, expected {want:?}", o.id, o.adj));
        }
        if !res.is_null() {
            let got = unsafe { words_at(res, 0, 2) };
            if got != [answer, 77] {
                return bad(format!("the caller's result tuple holds {got:?} after the callee wrote {answer}"));
            }
        }
        // the callee's kept arguments and the caller's own stay as they are
        let kept = KEPT.with(|c| std::mem::take(&mut *c.borrow_mut()));
        let mut sets = vec![(tuples, arrays)];
        if let Some((_, _, b)) = inner_built {
            sets.push((b.1, b.2));
        }
        for (tuples, arrays) in &sets {
            for (t, v) in tuples {
                let got = unsafe { words_at(*t, 0, v.len()) };
                if got != *v {
                    return bad(format!("invocation changed the caller's argument tuple from {v:x?} to {got:x?}"));
                }
            }
            for (a, v, _) in arrays {
                let got = unsafe { array_words(*a) };
                if got != *v {
                    return bad(format!("invocation changed the caller's control array from {v:x?} to {got:x?}"));
                }
            }
        }
        if alias_args {
            rt(|| unsafe { q::__quantum__rt__tuple_update_alias_count(args.cast(), -1) });
        }
        if alias_ctl {
            rt(|| unsafe { q::__quantum__rt__array_update_alias_count(sets[0].1[0].0, -1) });
        }
        for (t, arr, ctl, ctls, words) in &kept {
            let check = || unsafe { words_at(*t as *const u8, *ctl, words.len()) == *words && (*ctl == 0 || array_words(*arr as *const q::QirArray) == *ctls) };
            if !check() {
                return bad("arguments kept by the callee changed after it returned");
            }
        }
        for (n, (tuples, arrays)) in sets.into_iter().enumerate() {
            for (t, _) in tuples {
                let (_, d) = rt_d(|| unsafe { q::__quantum__rt__tuple_update_reference_count(t.cast(), -1) });
                if d.0 >= 0 {
                    return bad("releasing the caller's argument tuple after an invocation returned no memory");
                }
            }
            for (a, v, s) in arrays {
                let (_, d) = rt_d(|| unsafe { q::__quantum__rt__array_update_reference_count(a, -(s - 1)) });
                if d != (0, 0) {
                    return bad("a control array with references left was freed after an invocation");
                }
                let (_, d) = rt_d(|| unsafe { q::__quantum__rt__array_update_reference_count(a, -1) });
                let still = n == 0 && kept.iter().any(|x| x.1 == a as usize);
                if still && d != (0, 0) {
                    return bad("a control array kept by the callee was freed");
                }
                if !still && d.0 >= 0 {
                    return bad(format!("releasing the caller's control array of {} after an invocation returned no memory", v.len()));
                }
            }
        }
        for (t, arr, ctl, ctls, words) in kept {
            unsafe {
                if words_at(t as *const u8, ctl, words.len()) != words || (ctl == 1 && array_words(arr as *const q::QirArray) != ctls) {
                    return bad("arguments kept by the callee changed after the caller released its own");
                }
                rt(|| q::__quantum__rt__tuple_update_reference_count(t as *mut _, -1));
                if ctl == 1 {
                    rt(|| q::__quantum__rt__array_update_reference_count(arr as *const q::QirArray, -1));
                }
            }
        }
        if !res.is_null() {
            rt(|| unsafe { q::__quantum__rt__tuple_update_reference_count(res.cast(), -1) });
        }
        Ok(())
    }
    fn capture(&mut self, i: usize) -> Result<(), String> {
        let o = self.objs[i].clone();
        let amount = match self.r.below(5) {
            0 => *self.r.pick(&[0, 1, -1, i32::MAX, i32::MIN]),
            _ => self.r.range(-5, 5) as i32,
        };
        let which = self.r.below(2);
        CAPTURED.with(|c| c.borrow_mut().clear());
        self.log.step(format!("capture update of callable #{} ({}) by {amount}", o.id, ["references", "aliases"][which]));
        rt(|| unsafe {
            if which == 0 {
                q::__quantum__rt__capture_update_reference_count(o.p.cast(), amount);
            } else {
                q::__quantum__rt__capture_update_alias_count(o.p.cast(), amount);
            }
        });
        let got = CAPTURED.with(|c| std::mem::take(&mut *c.borrow_mut()));
        let want: Vec<Captured> = o
            .mem
            .filter(|m| MEMS[*m][which].is_some())
            .map(|m| Captured { table: m, which, cap: o.cap_ptr, amount })
            .into_iter()
            .collect();
        self.log.n("capture_updates_judged", 1);
        self.log.ctx(format!("capture {which} mem{:?} amount{}", o.mem, amount.signum()));
        if got != want {
            return bad(format!("capture update {which} by {amount} called {:?}{}, expected {want:?}", &got[..got.len().min(4)], if got.len() > 4 { " and more" } else { "" }));
        }
        Ok(())
    }
    fn text(&mut self) -> Result<(), String> {
        // conversions to strings and big-integer arithmetic as sources of further objects
        match self.r.below(4) {
            0 => {
                let v = self.r.u64() as i64;
                let p = rt(|| q::strings::__quantum__rt__int_to_string(v));
                self.fresh(K::Str, p.cast(), 1, crate::exact::i64_text(v).into_bytes())?;
                self.log.step(format!("int_to_string({v})"));
            }
            1 => {
                if let (Some(i), Some(j)) = (self.pick(|o| o.k == K::Big), self.pick(|o| o.k == K::Big)) {
                    let (a, b) = (self.objs[i].clone(), self.objs[j].clone());
                    let (x, y) = (Int::from_bytes(&a.data), Int::from_bytes(&b.data));
                    if x.bits() + y.bits() > 4000 {
                        return Ok(());
                    }
                    let mul = self.r.bool();
                    let p = rt(|| unsafe {
                        if mul { q::bigints::__quantum__rt__bigint_multiply(a.p.cast(), b.p.cast()) } else { q::bigints::__quantum__rt__bigint_subtract(a.p.cast(), b.p.cast()) }
                    });
                    let w = if mul { x.mul(&y) } else { x.sub(&y) };
                    let bytes = w.bytes(w.bits() / 8 + 1);
                    self.log.step(format!("big #{} {} big #{}", a.id, if mul { "*" } else { "-" }, b.id));
                    self.fresh(K::Big, p.cast(), 1, bytes)?;
                    self.check(i)?;
                    self.check(j)?;
                }
            }
            2 => {
                if let Some(i) = self.pick(|o| o.k == K::Big) {
                    let o = self.objs[i].clone();
                    let (p, d) = rt_d(|| unsafe { q::__quantum__rt__bigint_get_data(o.p.cast()) });
                    forgive(d); // the caller owns the exported bytes
                    let n = rt(|| unsafe { q::__quantum__rt__bigint_get_length(o.p.cast()) }) as usize;
                    let got = unsafe { std::slice::from_raw_parts(p, n) }.to_vec();
                    keep(p as usize);
                    if Int::from_bytes(&got) != Int::from_bytes(&o.data) {
                        return bad(format!("bytes of big integer #{} are {got:?}, expected {:?}", o.id, o.data));
                    }
                }
            }
            _ => {
                let v = (self.r.gauss() * 1e3).round() / 8.0;
                let p = rt(|| q::strings::__quantum__rt__double_to_string(v));
                let t = str_bytes(p);
                if String::from_utf8_lossy(&t).parse::<f64>().ok() != Some(v) {
                    return bad(format!("{v} converts to {}", String::from_utf8_lossy(&t)));
                }
                self.fresh(K::Str, p.cast(), 1, t)?;
            }
        }
        Ok(())
    }
    pub fn step(&mut self) -> Result<(), String> {
        let w = self.w;
        let full = self.objs.len() >= w.max_live;
        let c = if full { 0.05 } else { 1.0 };
        let ws = [
            w.create_arr * c, w.create_tup * c, w.create_str * c, w.create_big * c, w.create_call * c, w.copy * c.max(0.3), w.concat * c, w.slice * c,
            w.count * if full { 3.0 } else { 1.0 }, w.alias, w.read, w.write, w.functor, w.invoke, w.capture, w.text * c,
        ];
        let total: f64 = ws.iter().sum();
        let mut x = self.r.f64() * total;
        let mut op = ws.len() - 1;
        for (i, v) in ws.iter().enumerate() {
            if x < *v {
                op = i;
                break;
            }
            x -= v;
        }
        self.log.n("runtime_steps", 1);
        match op {
            0 => {
                let mut elem = *self.r.pick(&[1usize, 1, 2, 3, 4, 5, 7, 8, 8, 8, 12, 16, 24, 32, 100]);
                let mut n = match self.r.below(12) {
                    0 => 0,
                    1 => 1,
                    2 => self.r.below(300),
                    _ => self.r.below(12),
                };
                if self.r.chance(0.002) {
                    // counts and element sizes that do not fit 8 or 16 bits
                    (elem, n) = *self.r.pick(&[(1, 65_536), (2, 66_000), (1, 70_001), (300, 20), (70_000, 3), (65_536, 1), (1000, 260)]);
                    self.log.n("large_objects", 1);
                }
                self.log.max("longest_array", n as u64);
                self.log.max("largest_array_bytes", (elem * n) as u64);
                let i = self.make_arr(elem, n)?;
                if self.r.chance(0.7) {
                    self.fill(i);
                }
            }
            1 => {
                let mut s = match self.r.below(6) {
                    0 => 0,
                    1 => 1 + self.r.below(7),
                    2 => self.r.below(300),
                    _ => 8 * (1 + self.r.below(6)),
                };
                if self.r.chance(0.003) {
                    s = *self.r.pick(&[256usize, 5000, 65_535, 65_536, 70_001]);
                    self.log.n("large_objects", 1);
                }
                self.log.max("largest_tuple_bytes", s as u64);
                let i = self.make_tup(s)?;
                if self.r.chance(0.7) {
                    self.fill(i);
                }
            }
            2 => {
                let v = random_bytes(self.r);
                let c = CString::new(v.clone()).unwrap();
                let p = rt(|| unsafe { q::__quantum__rt__string_create(c.as_ptr() as *mut c_char) });
                drop(c);
                let i = self.fresh(K::Str, p.cast(), 1, v)?;
                self.log.step(format!("#{} = string", self.objs[i].id));
                self.check(i)?;
            }
            3 => {
                let v: Vec<u8> = (0..1 + self.r.below(30)).map(|_| self.r.u64() as u8).collect();
                let p = rt(|| unsafe { q::__quantum__rt__bigint_create_array(v.len() as u32, v.as_ptr()) });
                let i = self.fresh(K::Big, p.cast(), 1, v)?;
                self.log.step(format!("#{} = big integer", self.objs[i].id));
                self.check(i)?;
            }
            4 => {
                self.make_call()?;
            }
            5 => {
                if let Some(i) = self.pick(|o| matches!(o.k, K::Arr | K::Tup | K::Call)) {
                    self.copy(i)?;
                }
            }
            6 => {
                if let Some(i) = self.pick(|o| matches!(o.k, K::Arr | K::Str)) {
                    let o = self.objs[i].clone();
                    if let Some(j) = self.pick(|x| x.k == o.k && x.elem == o.elem) {
                        if o.data.len() + self.objs[j].data.len() < 300_000 {
                            self.concat(i, j)?;
                        }
                    }
                }
            }
            7 => {
                if let Some(i) = self.pick(|o| o.k == K::Arr) {
                    self.slice(i)?;
                }
            }
            8 => {
                if let Some(i) = self.pick(|_| true) {
                    let o = &self.objs[i];
                    // captures hold references that go with their callable
                    let id = o.id;
                    let held = self.objs.iter().filter(|x| x.cap == Some(id)).count() as i64;
                    let free = o.strong - held;
                    let by = match self.r.below(6) {
                        0 => self.r.range(1, 4),
                        1 => 0,
                        2 if self.r.chance(0.05) => if self.r.chance(0.1) { self.r.range(65_530, 70_000) } else { self.r.range(50, 400) },
                        3 => -free,
                        _ => -self.r.range(1, 3).min(free),
                    };
                    self.log.ctx(format!("refs {:?} by{} from{} held{}", o.k, by.clamp(-4, 4), o.strong.min(5), held.min(2)));
                    self.refs(i, by as i32)?;
                }
            }
            9 => {
                if let Some(i) = self.pick(|o| matches!(o.k, K::Arr | K::Tup | K::Call)) {
                    let a = self.objs[i].alias;
                    let by = match self.r.below(5) {
                        0 | 1 => self.r.range(1, 3),
                        2 if self.r.chance(0.1) => if self.r.chance(0.3) { self.r.range(250, 70_000) } else { self.r.range(20, 100) },
                        3 => -a,
                        _ => -self.r.range(0, 2).min(a),
                    };
                    let before = balance();
                    self.log.step(format!("#{} alias {by:+} (to {})", self.objs[i].id, a + by));
                    self.log.ctx(format!("alias {:?} by{} from{}", self.objs[i].k, by.clamp(-3, 3), a.min(4)));
                    self.update(i, true, by as i32);
                    if balance() != before {
                        return bad(format!("changing the alias count of #{} changed allocated memory", self.objs[i].id));
                    }
                    self.objs[i].alias += by;
                    self.log.n("alias_updates", 1);
                }
            }
            10 => {
                if let Some(i) = self.pick(|_| true) {
                    self.check(i)?;
                }
            }
            11 => {
                if let Some(i) = self.pick(|o| matches!(o.k, K::Arr | K::Tup)) {
                    self.write(i);
                    if self.r.chance(0.4) {
                        for j in 0..self.objs.len() {
                            if self.objs[j].k != K::Call {
                                self.check(j)?;
                            }
                        }
                    }
                }
            }
            12 => {
                if let Some(i) = self.pick(|o| o.k == K::Call) {
                    let o = self.objs[i].clone();
                    if self.r.bool() {
                        rt(|| unsafe { q::__quantum__rt__callable_make_adjoint(o.p.cast()) });
                        self.objs[i].adj = !o.adj;
                        self.log.step(format!("callable #{} adjoint", o.id));
                    } else if o.ctls < 6 && self.r.chance(0.01) {
                        let n = if self.r.chance(0.12) { self.r.range(70, 600) } else { self.r.range(10, 70) };
                        for _ in 0..n {
                            rt(|| unsafe { q::__quantum__rt__callable_make_controlled(o.p.cast()) });
                        }
                        self.objs[i].ctls += n as u32;
                        self.log.max("deepest_controlled", self.objs[i].ctls as u64);
                        self.log.step(format!("callable #{} controlled {n} times", o.id));
                    } else if o.ctls < 6 {
                        rt(|| unsafe { q::__quantum__rt__callable_make_controlled(o.p.cast()) });
                        self.objs[i].ctls += 1;
                        self.log.step(format!("callable #{} controlled", o.id));
                    }
                    if self.r.chance(0.3) {
                        for j in 0..self.objs.len() {
                            if self.objs[j].k == K::Call {
                                self.invoke(j, false)?;
                            }
                        }
                    }
                }
            }
            13 => {
                if let Some(i) = self.pick(|o| o.k == K::Call) {
                    self.invoke(i, true)?;
                }
            }
            14 => {
                if let Some(i) = self.pick(|o| o.k == K::Call) {
                    self.capture(i)?;
                }
            }
            _ => self.text()?,
        }
        Ok(())
    }
    /// gives up every reference and checks that all memory came back
    pub fn finish(&mut self) -> Result<(), String> {
        for i in 0..self.objs.len() {
            self.check(i)?;
        }
        let mut order: Vec<usize> = self.objs.iter().map(|o| o.id).collect();
        self.r.shuffle(&mut order);
        for pass in 0..2 {
            for id in &order {
                let Some(i) = self.objs.iter().position(|o| o.id == *id) else { continue };
                let held = self.objs.iter().filter(|x| x.cap == Some(*id)).count() as i64;
                let free = self.objs[i].strong - held;
                if pass == 0 && free > 1 && self.r.bool() {
                    self.refs(i, -1)?;
                } else if pass == 1 || held == 0 {
                    let s = self.objs[i].strong - held;
                    if s > 0 {
                        self.refs(i, -(s as i32))?;
                    }
                }
            }
        }
        while !self.objs.is_empty() {
            let i = self.objs.iter().position(|o| o.k == K::Call).unwrap_or(0);
            let s = self.objs[i].strong;
            self.refs(i, -(s as i32))?;
        }
        let b = balance();
        if b != (0, 0) {
            return bad(format!("after all references were given up the runtime still holds {} blocks, {} bytes", b.0, b.1));
        }
        self.log.n("histories_balanced", 1);
        Ok(())
    }
}


pub fn str_bytes(s: *const CString) -> Vec<u8> {
    unsafe {
        let n = q::__quantum__rt__string_get_length(s) as usize;
        std::slice::from_raw_parts(q::__quantum__rt__string_get_data(s).cast::<u8>(), n).to_vec()
    }
}
pub fn random_bytes(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(8) {
        0 => 0,
        1 => 1,
        2 if r.chance(0.01) => *r.pick(&[4095, 4096, 8191, 65_535, 65_536, 70_000]),
        2 => r.below(2000),
        _ => r.below(30),
    };
    let mode = r.below(3);
    (0..n)
        .map(|_| match mode {
            0 => 1 + r.below(255) as u8,
            1 => b' ' + r.below(95) as u8,
            _ => *r.pick(b"\t\n\r\\\"'\x01\x7f\xc3\xa9\xf0\x9f\x98\x80%{}"),
        })
        .collect()
}

pub fn history(r: &mut Rng, len: usize, log: &mut Log, w: &'static W) -> Result<(), String> {
    balance_reset();
    CALLED.with(|c| c.borrow_mut().clear());
    KEPT.with(|c| c.borrow_mut().clear());
    let mut h = Hist { r, log, w, objs: vec![], next: 0 };
    for _ in 0..len {
        h.step()?;
    }
    h.finish()
}

/// memory the runtime hands to its caller for good stays reachable, so that the leak checker passes over it
pub fn keep(p: usize) {
    static GIVEN: std::sync::Mutex<Vec<usize>> = std::sync::Mutex::new(vec![]);
    GIVEN.lock().unwrap().push(p);
}

//! Seeded, prefix-deterministic histories over the classical runtime (arrays, big integers, strings,
//! callables, output), each judged step by step. A case is (check name, seed, length).
use crate::exact::{Int, i64_text};
use crate::lockstep::hash_text;
use crate::rng::Rng;
use crate::stdobjs::{self, balance, balance_reset, rt, str_bytes};
use crate::targets::{buffer_output, qp, take_output};
use num_bigint::BigInt;
use qir_backend as q;
use std::collections::BTreeMap;
use std::ffi::{CString, c_char};
use std::ptr::null_mut;

#[derive(Default)]
pub struct Log {
    pub steps: Vec<String>,
    pub counts: BTreeMap<String, u64>,
    pub ctxs: Vec<u64>,
    pub maxes: BTreeMap<&'static str, u64>,
}
impl Log {
    pub fn step(&mut self, s: String) {
        if self.steps.len() >= 400 {
            self.steps.drain(..200);
        }
        self.steps.push(s);
    }
    pub fn n(&mut self, k: &str, v: u64) {
        if let Some(c) = self.counts.get_mut(k) {
            *c += v;
        } else {
            self.counts.insert(k.to_string(), v);
        }
    }
    pub fn max(&mut self, k: &'static str, v: u64) {
        let e = self.maxes.entry(k).or_default();
        *e = v.max(*e);
    }
    pub fn ctx(&mut self, s: String) {
        if self.ctxs.len() < 2000 {
            self.ctxs.push(hash_text(&s));
        }
    }
}

pub type Case = fn(&mut Rng, usize, &mut Log) -> Result<(), String>;

pub fn table(name: &str) -> Option<Case> {
    Some(match name {
        "memory" => |r, n, l| stdobjs::history(r, n, l, &stdobjs::MEMORY),
        "arrays" => |r, n, l| stdobjs::history(r, n, l, &stdobjs::ARRAYS),
        "copies" => |r, n, l| stdobjs::history(r, n, l, &stdobjs::COPIES),
        "calls" => |r, n, l| stdobjs::history(r, n, l, &stdobjs::CALLS),
        "bigints" => bigints,
        "strings" => strings,
        "output" => output,
        "dynresults" => dynresults,
        "programs" => programs,
        "allocs" => allocs,
        "huge" => huge,
        _ => return None,
    })
}

/// runs one case; the error names the last steps
pub fn run(name: &str, seed: u64, len: usize, log: &mut Log) -> Option<String> {
    let f = table(name).unwrap();
    let mut r = Rng::derive(seed, hash_text(name));
    let e = match crate::ctx::catch(|| f(&mut r, len, log)) {
        Ok(Ok(())) => return None,
        Ok(Err(e)) => e,
        Err(p) => format!("panic: {p}"),
    };
    let k = log.steps.len().saturating_sub(25);
    Some(format!("{e}\nlast steps: {}", log.steps[k..].join("; ")))
}

// ---- big integers ------------------------------------------------------------------------------

fn random_int(r: &mut Rng, max_bits: usize) -> Int {
    let edge = [0usize, 1, 7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 191, 192, 255, 256, 512];
    let bits = match r.below(4) {
        0 => *r.pick(&edge),
        1 => r.below(70),
        2 => r.below(200),
        _ => r.below(max_bits),
    }
    .min(max_bits);
    let neg = r.bool();
    let mut mag: Vec<u32> = (0..bits / 32 + 1).map(|_| r.u64() as u32).collect();
    match r.below(6) {
        0 => mag.iter_mut().for_each(|w| *w = 0),
        1 => mag.iter_mut().for_each(|w| *w = u32::MAX),
        2 => {
            for w in &mut mag {
                *w = *r.pick(&[0, u32::MAX, 1, 0x8000_0000, 0x7fff_ffff]);
            }
        }
        _ => {}
    }
    // exactly `bits` significant bits, or one past / one short of a power of two
    let top = bits / 32;
    mag.truncate(top + 1);
    mag[top] &= ((1u64 << (bits % 32)) - 1) as u32;
    let mut v = Int::new(false, mag);
    if r.chance(0.5) && bits > 0 {
        v = v.bitop(&Int::from_i64(1).shl(bits - 1), |a, b| a | b);
    }
    match r.below(8) {
        0 => v = v.add(&Int::from_i64(1)),
        1 => v = v.sub(&Int::from_i64(1)),
        _ => {}
    }
    if neg { v.neg() } else { v }
}
struct Big {
    p: *const BigInt,
    v: Int,
}
fn big_bytes(p: *const BigInt) -> Vec<u8> {
    unsafe {
        let n = q::bigints::__quantum__rt__bigint_get_length(p) as usize;
        let d = q::bigints::__quantum__rt__bigint_get_data(p);
        crate::stdobjs::keep(d as usize);
        std::slice::from_raw_parts(d, n).to_vec()
    }
}
/// numbers past this size are judged by their exported bytes; their decimal text takes too long to compute
const TEXT_BITS: usize = 60_000;
fn tx(v: &Int) -> String {
    if v.bits() <= TEXT_BITS {
        return v.text();
    }
    format!("<{}{} bits, low word {:x}>", if v.neg { "-" } else { "" }, v.bits(), v.mag[0])
}
fn big_check(p: *const BigInt, want: &Int, what: &str, full: bool) -> Result<(), String> {
    if want.bits() > TEXT_BITS || unsafe { q::bigints::__quantum__rt__bigint_get_length(p) } as usize > TEXT_BITS / 8 {
        let b = big_bytes(p);
        if b.is_empty() || Int::from_bytes(&b) != *want || b.len() != want.bytes_needed() {
            return Err(format!("{what}: the {} exported bytes do not read as {}", b.len(), tx(want)));
        }
        return Ok(());
    }
    let s = unsafe { q::strings::__quantum__rt__bigint_to_string(p) };
    let t = String::from_utf8_lossy(&str_bytes(s)).into_owned();
    unsafe { q::__quantum__rt__string_update_reference_count(s, -1) };
    if t != want.text() {
        return Err(format!("{what} = {t}, expected {}", want.text()));
    }
    if full {
        let b = big_bytes(p);
        if b.is_empty() || Int::from_bytes(&b) != *want {
            return Err(format!("{what}: exported bytes {b:?} do not read as {}", want.text()));
        }
        let minimal = if b.len() > 1 { Int::from_bytes(&b[..b.len() - 1]) != *want } else { true };
        if !minimal {
            return Err(format!("{what}: exported bytes {b:?} are longer than needed for {}", want.text()));
        }
    }
    Ok(())
}
fn bigints(r: &mut Rng, len: usize, log: &mut Log) -> Result<(), String> {
    use q::bigints::*;
    let mut pool: Vec<Big> = vec![];
    let mut huge = false;
    let (max_bits, len) = match r.below(2000) {
        21..=26 => {
            huge = true;
            (700_000, 4 + r.below(10))
        }
        27..=28 => (90_000, len.min(8)),
        0 => (40_000, len.min(12)),
        1..=20 => (5000, len.min(30)),
        _ => (*r.pick(&[70, 140, 300, 1000]), len),
    };
    for _ in 0..len {
        if pool.len() < 2 || r.chance(0.12) {
            let mut v = random_int(r, max_bits);
            if huge && r.chance(0.8) {
                let n = 20_000 + r.below(450_000);
                v = if r.bool() { v.shl(n).add(&Int::from_i64(r.range(-3, 3))) } else { Int::new(r.bool(), (0..n / 32).map(|_| r.u64() as u32).collect()) };
            }
            let (p, how) = match r.below(3) {
                0 if v.bits() < 64 => {
                    let mut x = i64::from_le_bytes(v.bytes(8).try_into().unwrap());
                    if r.chance(0.1) {
                        x = *r.pick(&[i64::MIN, i64::MAX, 0, -1, 1, i64::MIN + 1]);
                    }
                    pool.push(Big { p: __quantum__rt__bigint_create_i64(x), v: Int::from_i64(x) });
                    log.step(format!("from i64 {x}"));
                    let b = pool.last().unwrap();
                    big_check(b.p, &b.v, &format!("from_i64({x})"), true)?;
                    log.n("operations_judged", 1);
                    continue;
                }
                _ => {
                    let extra = *r.pick(&[0usize, 0, 1, 3, 8]);
                    let b = v.bytes(v.bits() / 8 + 1 + extra);
                    (unsafe { __quantum__rt__bigint_create_array(b.len() as u32, b.as_ptr()) }, if b.len() > TEXT_BITS / 8 { format!("from {} bytes", b.len()) } else { format!("from bytes {b:?}") })
                }
            };
            log.step(how.clone());
            big_check(p, &v, &how, true)?;
            log.n("operations_judged", 1);
            pool.push(Big { p, v });
            continue;
        }
        let i = r.below(pool.len());
        let j = if r.chance(0.15) { i } else { r.below(pool.len()) };
        let (a, b) = (&pool[i], &pool[j]);
        let (pa, pb) = (a.p, b.p);
        let op = if huge { *r.pick(&[0, 1, 3, 3, 4, 6, 7, 8, 9, 10, 11, 12, 13]) } else { r.below(15) };
        log.n("operations_judged", 1);
        if huge {
            log.n("operations_on_huge_integers", 1);
        }
        let names = ["add", "subtract", "multiply", "divide", "modulus", "power", "negate", "and", "or", "xor", "not", "shift left", "shift right", "compare", "read"];
        log.step(format!("{} of {} and {}", names[op], crate::ctx::clip(&tx(&a.v), 80), crate::ctx::clip(&tx(&b.v), 80)));
        log.ctx(format!("{} {}{} {} {} same{}", names[op], u8::from(a.v.neg), u8::from(b.v.neg), (a.v.bits() / 16).min(20), (b.v.bits() / 16).min(20), i == j));
        unsafe {
            let mut amount = 0u64;
            let (p, w) = match op {
                0 => (__quantum__rt__bigint_add(pa, pb), a.v.add(&b.v)),
                1 => (__quantum__rt__bigint_subtract(pa, pb), a.v.sub(&b.v)),
                2 => (__quantum__rt__bigint_multiply(pa, pb), a.v.mul(&b.v)),
                3 | 4 if b.v.is_zero() => continue,
                3 | 4 if huge => {
                    // quotient and remainder are judged by the identity that defines them
                    if a.v.bits() > b.v.bits() + 60_000 {
                        continue;
                    }
                    let (pq, pr) = (__quantum__rt__bigint_divide(pa, pb), __quantum__rt__bigint_modulus(pa, pb));
                    let (vq, vr) = (Int::from_bytes(&big_bytes(pq)), Int::from_bytes(&big_bytes(pr)));
                    let abs = |v: &Int| Int::new(false, v.mag.clone());
                    if vq.mul(&b.v).add(&vr) != a.v || abs(&vr).cmp(&abs(&b.v)).is_ge() || !(vr.is_zero() || vr.neg == a.v.neg) {
                        return Err(format!("{} divided by {}: quotient {} and remainder {}", tx(&a.v), tx(&b.v), tx(&vq), tx(&vr)));
                    }
                    big_check(pa, &a.v, "dividend", false)?;
                    big_check(pb, &b.v, "divisor", false)?;
                    __quantum__rt__bigint_update_reference_count(pq, -1);
                    __quantum__rt__bigint_update_reference_count(pr, -1);
                    continue;
                }
                3 => (__quantum__rt__bigint_divide(pa, pb), a.v.divrem(&b.v).0),
                4 => (__quantum__rt__bigint_modulus(pa, pb), a.v.divrem(&b.v).1),
                5 => {
                    let e = if a.v.bits() <= 1 { r.below(40) as u32 } else { r.below((1500 / a.v.bits()).clamp(1, 60) + 1) as u32 };
                    // 0, 1 and -1 have every power
                    let e = if a.v.bits() <= 1 && r.chance(0.3) { *r.pick(&[u32::MAX, u32::MAX - 1, 1 << 31, 65_536, 65_537, 256, 257]) } else { e };
                    amount = u64::from(e);
                    let w = if a.v.bits() <= 1 && e > 2 { a.v.pow(2 - e % 2) } else { a.v.pow(e) };
                    (__quantum__rt__bigint_power(pa, e), w)
                }
                6 => (__quantum__rt__bigint_negate(pa), a.v.neg()),
                7 => (__quantum__rt__bigint_bitand(pa, pb), a.v.bitop(&b.v, |x, y| x & y)),
                8 => (__quantum__rt__bigint_bitor(pa, pb), a.v.bitop(&b.v, |x, y| x | y)),
                9 => (__quantum__rt__bigint_bitxor(pa, pb), a.v.bitop(&b.v, |x, y| x ^ y)),
                10 => (__quantum__rt__bigint_bitnot(pa), a.v.add(&Int::from_i64(1)).neg()),
                11 => {
                    amount = shift_amount(r, a.v.bits(), 600);
                    if a.v.is_zero() && r.chance(0.2) {
                        amount = 1 << r.below(40);
                    }
                    (__quantum__rt__bigint_shiftleft(pa, amount), if a.v.is_zero() { Int::zero() } else { a.v.shl(amount as usize) })
                }
                12 => {
                    amount = shift_amount(r, a.v.bits(), 2000);
                    if r.chance(0.1) {
                        amount = *r.pick(&[u64::MAX, 1 << 32, (1 << 32) + 1, 1 << 63, u64::from(u32::MAX)]);
                    }
                    (__quantum__rt__bigint_shiftright(pa, amount), a.v.shr(amount.min(1 << 30) as usize))
                }
                13 => {
                    let want = a.v.cmp(&b.v);
                    let got = (
                        __quantum__rt__bigint_equal(pa, pb),
                        __quantum__rt__bigint_greater(pa, pb),
                        __quantum__rt__bigint_greater_eq(pa, pb),
                    );
                    if got != (want.is_eq(), want.is_gt(), want.is_ge()) {
                        return Err(format!("comparing {} with {}: equal, greater, greater-or-equal are {got:?}", tx(&a.v), tx(&b.v)));
                    }
                    // an equal value in another object
                    let by = a.v.bytes(a.v.bits() / 8 + 1 + r.below(3));
                    let c = __quantum__rt__bigint_create_array(by.len() as u32, by.as_ptr());
                    let ok = __quantum__rt__bigint_equal(pa, c) && __quantum__rt__bigint_greater_eq(c, pa) && !__quantum__rt__bigint_greater(pa, c);
                    __quantum__rt__bigint_update_reference_count(c, -1);
                    if !ok {
                        return Err(format!("two objects of value {} do not compare equal", tx(&a.v)));
                    }
                    continue;
                }
                _ => {
                    big_check(pa, &a.v, "value", true)?;
                    continue;
                }
            };
            let what = format!("{} of {} and {}{}", names[op], tx(&a.v), tx(&b.v), if amount > 0 { format!(" by {amount}") } else { String::new() });
            let full = r.chance(0.3);
            big_check(p, &w, &what, full)?;
            big_check(pa, &a.v, &format!("first operand after {what}"), false)?;
            big_check(pb, &b.v, &format!("second operand after {what}"), false)?;
            if op < 2 && !w.is_zero() && r.chance(0.1) && __quantum__rt__bigint_equal(p, pa) != (w == a.v) {
                return Err(format!("{what} compares wrongly with its first operand"));
            }
            log.max("widest_integer_bits", w.bits() as u64);
            if w.bits() <= 2 * max_bits && pool.len() < 14 {
                pool.push(Big { p, v: w });
            } else {
                __quantum__rt__bigint_update_reference_count(p, -1);
            }
        }
        if pool.len() > 10 {
            let k = r.below(pool.len());
            let b = pool.swap_remove(k);
            unsafe { __quantum__rt__bigint_update_reference_count(b.p, -1) };
        }
    }
    for b in pool {
        big_check(b.p, &b.v, "value at the end", true)?;
        unsafe { __quantum__rt__bigint_update_reference_count(b.p, -1) };
    }
    Ok(())
}
fn shift_amount(r: &mut Rng, bits: usize, max: usize) -> u64 {
    match r.below(4) {
        0 => *r.pick(&[0u64, 1, 8, 31, 32, 33, 63, 64, 65, 128]),
        1 => (bits + r.below(3)).saturating_sub(1) as u64,
        _ => r.below(max) as u64,
    }
}

// ---- strings and conversions -------------------------------------------------------------------

/// exact text of a whole double: digits, point, zero
pub fn whole_text(v: f64) -> String {
    let b = v.to_bits();
    let e = ((b >> 52) & 0x7ff) as i64;
    let m = if e == 0 { (b & ((1 << 52) - 1)) << 1 } else { (b & ((1 << 52) - 1)) | (1 << 52) };
    let i = Int::new(false, vec![m as u32, (m >> 32) as u32]);
    let x = if e >= 1075 { i.shl((e - 1075) as usize) } else { i.shr((1075 - e) as usize) };
    format!("{}{}.0", if v.is_sign_negative() { "-" } else { "" }, x.text())
}
pub fn double_text_ok(v: f64, t: &str) -> Result<(), String> {
    if v.is_nan() {
        return match t.parse::<f64>() {
            Ok(x) if x.is_nan() => Ok(()),
            _ => Err(format!("NaN converts to {t:?}")),
        };
    }
    match t.parse::<f64>() {
        Ok(x) if x.to_bits() == v.to_bits() => {}
        _ => return Err(format!("{v:e} (bits {:x}) converts to {t:?}, which reads back as another number", v.to_bits())),
    }
    if v.is_finite() && v.trunc() == v && !t.contains('.') {
        return Err(format!("whole number {v:e} converts to {t:?} without a decimal point"));
    }
    if v.is_finite() && v.trunc() == v && t != whole_text(v) {
        return Err(format!("whole number {v:e} converts to {t:?}, expected {}", whole_text(v)));
    }
    Ok(())
}
pub fn random_double(r: &mut Rng) -> f64 {
    match r.below(10) {
        0 => *r.pick(&[
            0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 2.5, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, -5e-324, f64::EPSILON, 1.0 + f64::EPSILON,
            1.0 - f64::EPSILON / 2.0, 0.1, 0.2, 0.3, 1e15, 1e16, 1e17, 1e21, 1e22, 1e23, 9007199254740992.0, 9007199254740993.0, 4503599627370496.5,
            4503599627370495.5, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, std::f64::consts::PI, 123456789.125,
        ]),
        1 | 2 => f64::from_bits(r.u64()),
        3 => r.range(-1000, 1000) as f64,
        4 => r.u64() as i64 as f64,
        5 => r.range(-4000, 4000) as f64 / 8.0,
        6 => r.gauss(),
        7 => {
            // just beside a whole number
            let w = r.range(-1_000_000, 1_000_000) as f64;
            let b = w.to_bits();
            f64::from_bits(if r.bool() { b + 1 + r.below(3) as u64 } else { b.saturating_sub(1 + r.below(3) as u64) })
        }
        8 => {
            let e = r.range(-320, 308) as i32;
            (r.f64() * 20.0 - 10.0).round() * 10f64.powi(e)
        }
        _ => (r.gauss() * 1e6).round() + r.gauss() * 1e-12,
    }
}
fn take_str(s: *const CString) -> Vec<u8> {
    let v = str_bytes(s);
    unsafe { q::__quantum__rt__string_update_reference_count(s, -1) };
    v
}
fn want_text(got: &[u8], want: &str, what: &str) -> Result<(), String> {
    if got != want.as_bytes() {
        return Err(format!("{what} gives {:?}, expected {want:?}", String::from_utf8_lossy(got)));
    }
    Ok(())
}
fn strings(r: &mut Rng, len: usize, log: &mut Log) -> Result<(), String> {
    use q::strings::*;
    struct S(*const CString, Vec<u8>);
    let mut pool: Vec<S> = vec![];
    let mut large_number_due = true;
    // most histories stay short, a few grow very long strings
    let cap = match r.below(300) {
        0 => 700_000,
        1..=5 => 150_000,
        _ => 20_000,
    };
    let check = |s: &S, what: &str| -> Result<(), String> {
        let n = unsafe { __quantum__rt__string_get_length(s.0) } as usize;
        if n != s.1.len() {
            return Err(format!("{what}: length {n}, expected {}", s.1.len()));
        }
        let d = unsafe { std::slice::from_raw_parts(__quantum__rt__string_get_data(s.0).cast::<u8>(), n + 1) };
        if d[..n] != s.1[..] || d[n] != 0 {
            let at = d.iter().zip(&s.1).position(|(a, b)| a != b).unwrap_or(n);
            return Err(format!("{what}: bytes {:?}, expected {:?} and a terminating zero (first difference at {at} of {n})", &d[..d.len().min(2000)], &s.1[..n.min(2000)]));
        }
        Ok(())
    };
    for _ in 0..len {
        let op = r.below(14);
        log.n("conversions_and_string_steps", 1);
        match op {
            0 | 1 => {
                let v = if cap > 20_000 && r.chance(0.3) {
                    let n = r.below(cap / 3);
                    let (k, unit) = (1 + r.below(255) as u8, 1 + r.below(255) as u8);
                    (0..n).map(|i| if i % 1000 == 7 { unit } else { k }).collect()
                } else if !pool.is_empty() && r.chance(if cap > 20_000 { 0.6 } else { 0.3 }) {
                    // a near copy of another string
                    let mut v = r.pick(&pool).1.clone();
                    match r.below(4) {
                        0 if !v.is_empty() => {
                            let i = r.below(v.len());
                            v[i] = 1 + r.below(255) as u8;
                        }
                        1 => v.push(1 + r.below(255) as u8),
                        2 => {
                            v.pop();
                        }
                        _ => {}
                    }
                    v
                } else {
                    stdobjs::random_bytes(r)
                };
                let c = CString::new(v.clone()).unwrap();
                let p = unsafe { __quantum__rt__string_create(c.as_ptr() as *mut c_char) };
                drop(c);
                log.step(if v.len() > 3000 { format!("string of {} bytes", v.len()) } else { format!("string {v:?}") });
                let s = S(p, v);
                check(&s, "new string")?;
                pool.push(s);
            }
            2 | 3 if !pool.is_empty() => {
                let (i, j) = (r.below(pool.len()), r.below(pool.len()));
                log.ctx(format!("concat {} {}", pool[i].1.len().min(9), pool[j].1.len().min(9)));
                if pool[i].1.len() + pool[j].1.len() < cap {
                    let p = unsafe { __quantum__rt__string_concatenate(pool[i].0, pool[j].0) };
                    let mut v = pool[i].1.clone();
                    v.extend_from_slice(&pool[j].1);
                    log.step("concatenate".into());
                    let s = S(p, v);
                    check(&s, "concatenation")?;
                    check(&pool[i], "first source of a concatenation")?;
                    check(&pool[j], "second source of a concatenation")?;
                    pool.push(s);
                }
            }
            4 if !pool.is_empty() => {
                let (i, j) = (r.below(pool.len()), r.below(pool.len()));
                let got = unsafe { __quantum__rt__string_equal(pool[i].0, pool[j].0) };
                log.ctx(format!("equal {} {}", pool[i].1 == pool[j].1, pool[i].1.len().min(20)));
                log.n("equality_judged", 1);
                if got != (pool[i].1 == pool[j].1) {
                    return Err(crate::ctx::clip(&format!("strings of lengths {} and {} compare {got}: {:?} and {:?}", pool[i].1.len(), pool[j].1.len(), pool[i].1, pool[j].1), 4000));
                }
            }
            5 if !pool.is_empty() => {
                let i = r.below(pool.len());
                check(&pool[i], "string")?;
                if pool.len() > 8 {
                    let s = pool.swap_remove(i);
                    unsafe { __quantum__rt__string_update_reference_count(s.0, -1) };
                }
            }
            6 => {
                let v = edge_i64(r);
                log.step(format!("int_to_string({v})"));
                log.ctx(format!("int {} {}", v.signum(), v.unsigned_abs().leading_zeros()));
                want_text(&take_str(__quantum__rt__int_to_string(v)), &i64_text(v), &format!("int_to_string({v})"))?;
            }
            7 | 8 | 9 => {
                let v = random_double(r);
                log.step(format!("double_to_string({v:e})"));
                log.ctx(format!("double {:x}", v.to_bits() >> 52));
                log.n("doubles_judged", 1);
                let t = take_str(__quantum__rt__double_to_string(v));
                double_text_ok(v, &String::from_utf8_lossy(&t))?;
            }
            10 => {
                let b = r.bool();
                want_text(&take_str(__quantum__rt__bool_to_string(b)), if b { "true" } else { "false" }, "bool_to_string")?;
                let (p, t) = *r.pick(&[(q::Pauli::I, "PauliI"), (q::Pauli::X, "PauliX"), (q::Pauli::Y, "PauliY"), (q::Pauli::Z, "PauliZ")]);
                want_text(&take_str(__quantum__rt__pauli_to_string(p)), t, "pauli_to_string")?;
                let one = r.bool();
                let res = if one { q::result_bool::__quantum__rt__result_get_one() } else { q::result_bool::__quantum__rt__result_get_zero() };
                want_text(&take_str(q::result_bool::__quantum__rt__result_to_string(res)), if one { "One" } else { "Zero" }, "result_to_string")?;
            }
            11 => {
                let id = match r.below(3) {
                    0 => r.below(20),
                    1 => r.u64() as usize,
                    _ => r.below(5000),
                };
                let want = Int::new(false, vec![id as u32, (id as u64 >> 32) as u32]).text();
                want_text(&take_str(q::__quantum__rt__qubit_to_string(qp(id))), &want, &format!("qubit_to_string({id})"))?;
            }
            12 => {
                let v = match r.below(3000) {
                    0..=1 if large_number_due => {
                        large_number_due = false;
                        random_int(r, 1).add(&Int::from_i64(r.range(-1, 1))).add(&random_int(r, 300)).shl(r.below(90_000)).add(&random_int(r, 200))
                    }
                    2..=12 => random_int(r, 20_000),
                    13..=300 => random_int(r, 3_000),
                    _ => random_int(r, 400),
                };
                let b = v.bytes(v.bits() / 8 + 1);
                unsafe {
                    let p = q::bigints::__quantum__rt__bigint_create_array(b.len() as u32, b.as_ptr());
                    log.step(format!("bigint_to_string({})", v.text()));
                    want_text(&take_str(__quantum__rt__bigint_to_string(p)), &v.text(), "bigint_to_string")?;
                    q::bigints::__quantum__rt__bigint_update_reference_count(p, -1);
                }
            }
            _ => {
                let (s, t, e) = (edge_i64(r), if r.chance(0.3) { 1 } else { edge_i64(r) }, edge_i64(r));
                let want = if t == 1 { format!("{}..{}", i64_text(s), i64_text(e)) } else { format!("{}..{}..{}", i64_text(s), i64_text(t), i64_text(e)) };
                log.step(format!("range_to_string({s},{t},{e})"));
                log.ctx(format!("range {} {} {}", s.signum(), t.clamp(-2, 2), e.signum()));
                let got = take_str(q::quantum__rt__range_to_string(q::Range { start: s, step: t, end: e }));
                want_text(&got, &want, &format!("range_to_string({s},{t},{e})"))?;
            }
        }
    }
    for s in pool {
        check(&s, "string at the end")?;
        unsafe { __quantum__rt__string_update_reference_count(s.0, -1) };
    }
    Ok(())
}
fn edge_i64(r: &mut Rng) -> i64 {
    match r.below(5) {
        0 => *r.pick(&[0, 1, -1, 9, 10, -10, 99, 100, i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1, 1 << 32, -(1 << 32), i64::from(i32::MIN), 1_000_000_000_000_000_000]),
        1 => r.u64() as i64,
        2 => (r.u64() >> r.below(64)) as i64,
        _ => r.range(-1000, 1000),
    }
}

// ---- output records ----------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub enum OutOp {
    Labelled(u8, i64, u64, Option<Vec<u8>>),
    Result(usize, bool, u8, Option<Vec<u8>>),
    Legacy(u8, i64, u64),
    Message(String, bool),
    Raw(String),
    Dump,
    Drain,
    Direct(bool),
}
pub enum Piece {
    Exact(Vec<u8>),
    Double(Vec<u8>, f64, Vec<u8>),
    Dump,
}
pub fn escape(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '\t' => o.push_str("\\t"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\\' | '\'' | '"' => {
                o.push('\\');
                o.push(c);
            }
            ' '..='~' => o.push(c),
            _ => o.push_str(&format!("\\u{{{:x}}}", c as u32)),
        }
    }
    o
}
fn result_id(r: &mut Rng) -> usize {
    if r.chance(0.3) { crate::generate::wide_id(r) } else { r.below(10) }
}
fn random_text(r: &mut Rng) -> String {
    let n = match r.below(6) {
        0 => 0,
        1 if r.chance(0.01) => *r.pick(&[4096, 8192, 66_000]),
        1 => r.below(400),
        _ => r.below(25),
    };
    (0..n)
        .map(|_| match r.below(6) {
            0 => *r.pick(&['\n', '\t', '\r', '\\', '"', '\'', '\u{1}', '\u{7f}', '\u{85}', '\u{2028}', '\u{2029}', '\u{b}', '\u{c}', '\u{1b}']),
            1 => *r.pick(&['é', 'ß', '∑', '😀', '中', '\u{feff}', '\u{10ffff}', '\u{a0}']),
            _ => char::from(b' ' + r.below(95) as u8),
        })
        .collect()
}
fn label(r: &mut Rng) -> Option<Vec<u8>> {
    if r.chance(0.35) { None } else { Some(stdobjs::random_bytes(r)) }
}
pub fn out_ops(r: &mut Rng, len: usize, toggles: bool) -> Vec<OutOp> {
    (0..len)
        .map(|_| match r.below(if toggles { 15 } else { 14 }) {
            0..=5 => OutOp::Labelled(r.below(5) as u8, edge_i64(r), random_double(r).to_bits(), label(r)),
            6 | 7 => OutOp::Result(result_id(r), r.bool(), r.below(3) as u8, label(r)),
            8 | 9 => OutOp::Legacy(r.below(9) as u8, edge_i64(r), random_double(r).to_bits()),
            10 | 11 => OutOp::Message(random_text(r), r.bool()),
            12 => match r.below(4) {
                0 => OutOp::Dump,
                _ => OutOp::Raw(random_text(r).replace(['\n', '\r'], "|")),
            },
            13 => OutOp::Drain,
            _ => OutOp::Direct(r.bool()),
        })
        .collect()
}
/// executes one output call through the runtime
pub fn out_exec(o: &OutOp) {
    use q::output_recording as w;
    match o {
        OutOp::Labelled(k, i, d, tag) => unsafe {
            let c = tag.as_ref().map(|t| CString::new(t.clone()).unwrap());
            let t = c.as_ref().map_or(null_mut(), |c| c.as_ptr() as *mut c_char);
            match k {
                0 => w::__quantum__rt__array_record_output(*i, t),
                1 => w::__quantum__rt__tuple_record_output(*i, t),
                2 => w::__quantum__rt__int_record_output(*i, t),
                3 => w::__quantum__rt__double_record_output(f64::from_bits(*d), t),
                _ => w::__quantum__rt__bool_record_output(i & 1 == 1, t),
            }
        },
        OutOp::Result(id, b, how, tag) => unsafe {
            q::__quantum__rt__write_result(*b, qp(*id));
            let c = tag.as_ref().map(|t| CString::new(t.clone()).unwrap());
            match how {
                0 => q::legacy_output::__quantum__rt__result_record_output(qp(*id)),
                _ => q::__quantum__rt__result_record_output(qp(*id), c.as_ref().map_or(null_mut(), |c| c.as_ptr() as *mut c_char)),
            }
        },
        OutOp::Legacy(k, i, d) => unsafe {
            match k {
                0 => w::legacy::__quantum__rt__array_start_record_output(),
                1 => w::legacy::__quantum__rt__array_end_record_output(),
                2 => w::legacy::__quantum__rt__tuple_start_record_output(),
                3 => w::legacy::__quantum__rt__tuple_end_record_output(),
                4 => w::legacy::__quantum__rt__int_record_output(*i),
                5 => w::legacy::__quantum__rt__double_record_output(f64::from_bits(*d)),
                6 => w::legacy::__quantum__rt__bool_record_output(i & 1 == 1),
                7 => w::legacy::__quantum__rt__array_record_output(*i),
                _ => w::legacy::__quantum__rt__tuple_record_output(*i),
            }
        },
        OutOp::Message(t, how) => {
            let c = CString::new(t.replace('\0', "")).unwrap();
            unsafe {
                let s = q::__quantum__rt__string_create(c.as_ptr() as *mut c_char);
                if *how {
                    w::__quantum__rt__message_record_output(s);
                } else {
                    q::__quantum__rt__message(s);
                }
                q::__quantum__rt__string_update_reference_count(s, -1);
            }
        }
        OutOp::Raw(t) => q::record_output_str(t).unwrap(),
        OutOp::Dump => q::__quantum__qis__dumpmachine__body(null_mut()),
        OutOp::Direct(on) => buffer_output(!on),
        OutOp::Drain => {}
    }
}
/// what the call must append
pub fn out_model(o: &OutOp) -> Vec<Piece> {
    let tagged = |mut v: Vec<u8>, tag: &Option<Vec<u8>>| {
        if let Some(t) = tag {
            v.push(b'\t');
            v.extend_from_slice(t);
        }
        v.push(b'\n');
        v
    };
    let line = |s: String| vec![Piece::Exact((s + "\n").into_bytes())];
    match o {
        OutOp::Labelled(3, _, d, tag) => vec![Piece::Double(b"OUTPUT\tDOUBLE\t".to_vec(), f64::from_bits(*d), tagged(vec![], tag))],
        OutOp::Labelled(k, i, _, tag) => {
            let v = match k {
                0 => format!("OUTPUT\tARRAY\t{}", i64_text(*i)),
                1 => format!("OUTPUT\tTUPLE\t{}", i64_text(*i)),
                2 => format!("OUTPUT\tINT\t{}", i64_text(*i)),
                _ => format!("OUTPUT\tBOOL\t{}", if i & 1 == 1 { "true" } else { "false" }),
            };
            vec![Piece::Exact(tagged(v.into_bytes(), tag))]
        }
        OutOp::Result(_, b, 0, _) => line(format!("RESULT\t{}", u8::from(*b))),
        OutOp::Result(_, b, _, tag) => vec![Piece::Exact(tagged(format!("OUTPUT\tRESULT\t{}", u8::from(*b)).into_bytes(), tag))],
        OutOp::Legacy(k, i, d) => match k {
            0 => line("RESULT\tARRAY_START".into()),
            1 => line("RESULT\tARRAY_END".into()),
            2 => line("RESULT\tTUPLE_START".into()),
            3 => line("RESULT\tTUPLE_END".into()),
            4 => line(format!("RESULT\t{}", i64_text(*i))),
            5 => vec![Piece::Double(b"RESULT\t".to_vec(), f64::from_bits(*d), b"\n".to_vec())],
            6 => line(format!("RESULT\t{}", i & 1 == 1)),
            7 => line(format!("OUTPUT\tARRAY\t{}", i64_text(*i))),
            _ => line(format!("OUTPUT\tTUPLE\t{}", i64_text(*i))),
        },
        OutOp::Message(t, _) => line(format!("INFO\t{}", escape(t))),
        OutOp::Raw(t) => line(t.clone()),
        OutOp::Dump => vec![Piece::Dump],
        OutOp::Drain | OutOp::Direct(_) => vec![],
    }
}
/// consumes the expected pieces from the front of the text
pub fn out_match(mut text: &[u8], want: &[Piece], dump: &[u8]) -> Result<(), String> {
    let clip = |t: &[u8]| crate::ctx::clip(&String::from_utf8_lossy(t).escape_debug().to_string(), 200);
    for (n, p) in want.iter().enumerate() {
        match p {
            Piece::Exact(v) => {
                text = text.strip_prefix(&v[..]).ok_or_else(|| format!("record {n} of {}: expected {}, found {}", want.len(), clip(v), clip(text)))?;
            }
            Piece::Dump => {
                text = text.strip_prefix(dump).ok_or_else(|| format!("record {n}: expected the dump {}, found {}", clip(dump), clip(text)))?;
            }
            Piece::Double(pre, v, post) => {
                let rest = text.strip_prefix(&pre[..]).ok_or_else(|| format!("record {n}: expected {}, found {}", clip(pre), clip(text)))?;
                let k = rest.iter().position(|b| *b == b'\t' || *b == b'\n').unwrap_or(rest.len());
                double_text_ok(*v, &String::from_utf8_lossy(&rest[..k])).map_err(|e| format!("record {n}: {e}"))?;
                text = rest[k..].strip_prefix(&post[..]).ok_or_else(|| format!("record {n}: expected {} after the number, found {}", clip(post), clip(&rest[k..])))?;
            }
        }
    }
    if !text.is_empty() {
        return Err(format!("unexpected text after the expected records: {}", clip(text)));
    }
    Ok(())
}
/// a small state and all result identifiers in use, so that dumps have one fixed text as long as results stay
pub fn out_setup() {
    q::__quantum__rt__initialize(null_mut());
    let a = q::__quantum__rt__qubit_allocate();
    q::__quantum__qis__x__body(a);
}
fn output(r: &mut Rng, len: usize, log: &mut Log) -> Result<(), String> {
    buffer_output(true);
    let _ = take_output();
    out_setup();
    let mut ops = out_ops(r, len, false);
    if r.chance(0.004) {
        // far more records than any one buffer holds, drained at the end
        ops = out_ops(r, 1000 * (1 + len % 20), false);
        ops.retain(|o| !matches!(o, OutOp::Dump | OutOp::Drain));
        log.n("bulk_histories", 1);
    }
    let mut want = vec![];
    let mut records = 0;
    let mut dump: Vec<u8> = vec![];
    for o in ops.iter().chain([&OutOp::Drain]) {
        log.step(crate::ctx::clip(&format!("{o:?}"), 120));
        match o {
            OutOp::Drain => {
                let mut got = vec![];
                if r.chance(0.4) {
                    // the recorder is a reader, too: what is read is delivered
                    let mut left = r.below(12);
                    let limit = 1 << 24;
                    while left > 0 && got.len() < limit {
                        left -= 1;
                        let mut b = vec![0u8; *r.pick(&[0usize, 1, 2, 7, 64, 1000, 100_000])];
                        let n = q::OUTPUT.with(|o| std::io::Read::read(&mut **o.borrow_mut(), &mut b)).map_err(|e| format!("reading the recorded output failed: {e}"))?;
                        if n > b.len() {
                            return Err(format!("a read into {} bytes claims {n}", b.len()));
                        }
                        got.extend_from_slice(&b[..n]);
                        log.n("reads_judged", 1);
                    }
                }
                got.extend(take_output());
                out_match(&got, &want, &dump)?;
                let again = take_output();
                if !again.is_empty() {
                    return Err("a second drain delivered records again".into());
                }
                log.n("drains_judged", 1);
                log.n("bytes_judged", got.len() as u64);
                log.max("most_bytes_in_one_drain", got.len() as u64);
                log.max("most_records_in_one_drain", want.len() as u64);
                log.ctx(format!("drain {}", want.len().min(40)));
                want.clear();
                records = 0;
            }
            OutOp::Dump => {
                // reference text of this very state, taken through an empty buffer
                if records > 0 {
                    out_exec(o);
                    let both = take_output();
                    out_exec(o);
                    dump = take_output();
                    if dump.is_empty() || dump.last() != Some(&b'\n') {
                        return Err("a dump is not a sequence of lines".into());
                    }
                    want.push(Piece::Dump);
                    out_match(&both, &want, &dump)?;
                    log.n("dumps_judged", 1);
                    want.clear();
                    records = 0;
                }
            }
            _ => {
                out_exec(o);
                want.extend(out_model(o));
                records += 1;
                log.n("records_judged", 1);
                log.ctx(format!("{:?}", std::mem::discriminant(o)) + &match o {
                    OutOp::Labelled(k, i, _, t) => format!("{k} {} {}", i.signum(), t.as_ref().map_or(0, |t| 1 + t.len().min(30))),
                    OutOp::Result(id, b, h, t) => format!("{id} {b} {h} {}", t.is_some()),
                    OutOp::Legacy(k, ..) => format!("{k}"),
                    OutOp::Message(t, h) => format!("{} {h}", t.len().min(40)),
                    _ => String::new(),
                });
            }
        }
    }
    Ok(())
}
/// child process: runs the calls with direct output where selected, and writes what was drained to a file
pub fn output_child(seed: u64, len: usize, file: &str) {
    let mut r = Rng::derive(seed, 77);
    let ops = out_ops(&mut r, len, true);
    out_setup();
    let mut drained: Vec<u8> = vec![];
    for o in &ops {
        match o {
            OutOp::Drain => drained.extend(take_output()),
            OutOp::Dump => {}
            _ => out_exec(o),
        }
    }
    drained.extend(take_output());
    std::fs::write(file, drained).unwrap();
}
pub fn output_parent(seed: u64, len: usize, file: &std::path::Path) -> Option<String> {
    let o = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["output-child", &seed.to_string(), &len.to_string(), file.to_str().unwrap()])
        .stdin(std::process::Stdio::null())
        .output()
        .unwrap();
    if !o.status.success() {
        return Some(format!("the process ended with {:?}: {}", o.status, String::from_utf8_lossy(&o.stderr)));
    }
    let drained = std::fs::read(file).unwrap_or_default();
    let _ = std::fs::remove_file(file);
    let mut r = Rng::derive(seed, 77);
    let (mut direct, mut buffered) = (vec![], vec![]);
    let mut on = true; // output goes to standard output until told otherwise
    for o in &out_ops(&mut r, len, true) {
        match o {
            OutOp::Direct(b) => on = *b,
            OutOp::Dump => {}
            _ if on => direct.extend(out_model(o)),
            _ => buffered.extend(out_model(o)),
        }
    }
    if let Err(e) = out_match(&o.stdout, &direct, b"") {
        return Some(format!("standard output: {e}"));
    }
    if let Err(e) = out_match(&drained, &buffered, b"") {
        return Some(format!("drained output: {e}"));
    }
    None
}

// ---- dynamic results ---------------------------------------------------------------------------

fn dynresults(r: &mut Rng, len: usize, log: &mut Log) -> Result<(), String> {
    use q::result_bool::*;
    buffer_output(true);
    let _ = take_output();
    q::set_rng_seed(r.u64());
    q::__quantum__rt__initialize(null_mut());
    let n = 1 + r.below(4);
    let qs: Vec<_> = (0..n).map(|_| q::__quantum__rt__qubit_allocate()).collect();
    let mut seen: Vec<(*mut std::ffi::c_void, bool)> = vec![];
    for _ in 0..len {
        let t = *r.pick(&qs);
        match r.below(8) {
            0 => q::__quantum__qis__h__body(t),
            1 => q::__quantum__qis__x__body(t),
            2 => q::__quantum__qis__ry__body(r.f64() * 6.0, t),
            3 => {
                let c = *r.pick(&qs);
                if c != t {
                    q::__quantum__qis__cnot__body(c, t);
                }
            }
            _ => {
                let m = q::__quantum__qis__m__body(t);
                let one = !q::qubit_is_zero(t);
                log.step(format!("m(q{}) left the qubit in |{}>", t as usize, u8::from(one)));
                log.n("dynamic_results_judged", 1);
                log.ctx(format!("{one} {} {}", seen.len().min(20), n));
                let e = |what: &str| Err(format!("a measurement that left its qubit in |{}> {what}", u8::from(one)));
                if __quantum__rt__result_equal(m, __quantum__rt__result_get_one()) != one || __quantum__rt__result_equal(m, __quantum__rt__result_get_zero()) == one {
                    return e("does not equal that result");
                }
                let t = take_str(__quantum__rt__result_to_string(m));
                if t != if one { &b"One"[..] } else { b"Zero" } {
                    return e(&format!("prints as {}", String::from_utf8_lossy(&t)));
                }
                let _ = take_output();
                q::legacy_output::__quantum__rt__result_record_output(m);
                unsafe { q::__quantum__rt__result_record_output(m, null_mut()) };
                let out = take_output();
                let w = format!("RESULT\t{0}\nOUTPUT\tRESULT\t{0}\n", u8::from(one));
                if out != w.as_bytes() {
                    return e(&format!("is recorded as {:?}", String::from_utf8_lossy(&out)));
                }
                __quantum__rt__result_update_reference_count(m, 1);
                for (p, b) in &seen {
                    if __quantum__rt__result_equal(*p, m) != (*b == one) {
                        return e(&format!("compares wrongly with an earlier result {b}"));
                    }
                }
                if seen.len() < 12 {
                    seen.push((m, one));
                }
            }
        }
    }
    Ok(())
}

// ---- whole programs: memory --------------------------------------------------------------------

/// A generated program through the runtime interface, run three times: memory held by the runtime after
/// the second and third run must be the same.
fn programs(r: &mut Rng, len: usize, log: &mut Log) -> Result<(), String> {
    use crate::generate::{Profile, generate};
    use crate::lockstep::Target;
    use crate::targets::QirTarget;
    let stat = r.chance(0.2);
    let p = generate(
        r,
        &Profile {
            qir: true,
            static_ids: stat,
            w_phase: 0.0,
            min_q: 1,
            max_q: 4,
            ops: (len.max(2) / 2, len.max(2)),
            w_alloc: if stat { 0.0 } else { 1.0 },
            w_release: if stat { 0.0 } else { 1.0 },
            w_rotc: 3.0,
            w_exp: 2.0,
            w_qirgate: 2.0,
            w_pm: 1.0,
            w_ap: 0.0,
            ..Profile::default()
        },
    );
    let seed = r.u64();
    let mut after = vec![];
    for round in 0..3 {
        let mut t = QirTarget::start(seed, stat);
        for o in &p {
            if round == 0 {
                log.step(crate::prog::to_text(std::slice::from_ref(o)).trim().to_string());
            }
            if matches!(o, crate::prog::Op::AP(..)) {
                continue;
            }
            let _ = t.exec(o, 0.0);
            log.n("program_operations", 1);
        }
        // release what the program still holds
        for i in 0..t.arrays.len() {
            t.exec(&crate::prog::Op::ReleaseN(i), 0.0);
        }
        drop(t);
        let _ = take_output();
        q::__quantum__rt__initialize(null_mut());
        after.push(crate::alloc::live());
    }
    log.ctx(p.iter().map(crate::prog::Op::label).collect::<Vec<_>>().join(" "));
    if after[1].blocks != after[2].blocks || after[1].bytes != after[2].bytes {
        return Err(format!("each run of the program leaves memory behind: {:?} after the second run, {:?} after the third", after[1], after[2]));
    }
    log.n("programs_balanced", 1);
    Ok(())
}

/// qubit arrays, held and aliased in every order that compiled programs use
fn allocs(r: &mut Rng, len: usize, log: &mut Log) -> Result<(), String> {
    struct A {
        p: *const q::QirArray,
        ids: Vec<usize>,
        strong: i32,
        alias: i32,
    }
    q::__quantum__rt__initialize(null_mut());
    balance_reset();
    let mut live: Vec<A> = vec![];
    let read = |a: &A| -> Vec<usize> {
        unsafe {
            (0..q::__quantum__rt__array_get_size_1d(a.p))
                .map(|i| q::__quantum__rt__array_get_element_ptr_1d(a.p, i).cast::<usize>().read_unaligned())
                .collect()
        }
    };
    let write = |a: &A| unsafe {
        for (i, x) in a.ids.iter().enumerate() {
            q::__quantum__rt__array_get_element_ptr_1d(a.p, i as u64).cast::<usize>().write_unaligned(*x);
        }
    };
    let shuffled = |r: &mut Rng, v: &[usize]| {
        let mut v = v.to_vec();
        for i in (1..v.len()).rev() {
            v.swap(i, r.below(i + 1));
        }
        v
    };
    for _ in 0..len {
        match r.below(6) {
            0 | 1 => {
                let n = if r.chance(0.01) { 100 + r.below(200) } else { r.below(5) };
                log.max("longest_qubit_array", n as u64);
                let p = q::__quantum__rt__qubit_allocate_array(n as u64);
                let mut a = A { p, ids: vec![], strong: 1, alias: 0 };
                a.ids = read(&a);
                log.step(format!("array of {n} qubits: {:?}", a.ids));
                log.n("qubit_arrays", 1);
                if a.ids.len() != n {
                    return Err(format!("an array of {n} qubits has size {}", a.ids.len()));
                }
                for (i, x) in a.ids.iter().enumerate() {
                    if a.ids[..i].contains(x) || live.iter().any(|l| l.ids.contains(x)) {
                        return Err(format!("qubit {x} was handed out twice"));
                    }
                }
                live.push(a);
            }
            2 if !live.is_empty() => {
                let a = r.pick(&live);
                if read(a) != a.ids {
                    return Err(format!("qubit array changed from {:?} to {:?}", a.ids, read(a)));
                }
                for x in &a.ids {
                    q::__quantum__qis__h__body(qp(*x));
                }
            }
            3 if !live.is_empty() => {
                let i = r.below(live.len());
                let a = &mut live[i];
                let by = r.range(-1, 2) as i32;
                if a.alias + by >= 0 {
                    unsafe { q::__quantum__rt__array_update_alias_count(a.p, by) };
                    a.alias += by;
                }
            }
            4 if !live.is_empty() => {
                let i = r.below(live.len());
                let a = &mut live[i];
                let by = r.range(-1, 2) as i32;
                if a.strong + by >= 1 {
                    unsafe { q::__quantum__rt__array_update_reference_count(a.p, by) };
                    a.strong += by;
                }
            }
            5 if !live.is_empty() => {
                let i = r.below(live.len());
                let mut a = live.swap_remove(i);
                if r.chance(0.3) {
                    // a program may store its qubits in any order, and those of another array
                    a.ids = shuffled(r, &a.ids);
                    if !live.is_empty() {
                        let b = r.below(live.len());
                        let b = &mut live[b];
                        for k in 0..a.ids.len().min(b.ids.len()) {
                            if r.bool() {
                                std::mem::swap(&mut a.ids[k], &mut b.ids[k]);
                            }
                        }
                        write(b);
                    }
                    write(&a);
                    log.n("qubit_arrays_reordered", 1);
                }
                unsafe {
                    q::__quantum__rt__array_update_alias_count(a.p, -a.alias);
                    log.step(format!("release of array {:?} with {} references", a.ids, a.strong));
                    log.ctx(format!("release {} refs{} live{}", a.ids.len(), a.strong.min(4), live.len().min(5)));
                    q::__quantum__rt__qubit_release_array(a.p);
                    if a.strong > 1 {
                        // others still hold the array: readable until the last of them goes
                        if read(&a) != a.ids {
                            return Err("a released qubit array with references left changed".into());
                        }
                        let b = balance();
                        rt(|| q::__quantum__rt__array_update_reference_count(a.p, -(a.strong - 2)));
                        if balance() != b {
                            return Err("a qubit array with a reference left was freed".into());
                        }
                        rt(|| q::__quantum__rt__array_update_reference_count(a.p, -1));
                        if balance().0 >= b.0 {
                            return Err("the last reference to a released qubit array returned no memory".into());
                        }
                    }
                }
            }
            _ => {}
        }
    }
    for a in live {
        unsafe {
            q::__quantum__rt__array_update_alias_count(a.p, -a.alias);
            q::__quantum__rt__array_update_reference_count(a.p, -(a.strong - 1));
            let l0 = crate::alloc::live();
            q::__quantum__rt__qubit_release_array(a.p);
            let _ = l0;
        }
    }
    let (s, n) = q::capture_quantum_state();
    if n != 0 || s.len() != 1 {
        return Err(format!("after all qubit arrays were released {n} qubits remain"));
    }
    q::__quantum__rt__initialize(null_mut());
    Ok(())
}

/// Objects whose sizes and element offsets do not fit 32 bits; hardly any of their memory is ever touched.
fn huge(r: &mut Rng, len: usize, log: &mut Log) -> Result<(), String> {
    use q::{__quantum__rt__array_get_element_ptr_1d as at, __quantum__rt__array_get_size_1d as size};
    const K4: u64 = 1 << 32;
    let before = crate::alloc::live();
    for _ in 0..len {
        let (elem, n): (u64, u64) = *r.pick(&[(1, K4 + 5), (8, (1 << 29) + 3), (16, (1 << 28) + 2), (3, K4 / 3 + 7), (1 << 16, (1 << 16) + 1), (1 << 30, 5), ((1 << 31) + 8, 2)]);
        // address space may be scarce where this runs: look first, and leave it out then
        unsafe {
            let l = std::alloc::Layout::from_size_align(6 << 30, 8).unwrap();
            let p = std::alloc::alloc_zeroed(l);
            if p.is_null() {
                log.n("huge_objects_left_out", 1);
                continue;
            }
            std::alloc::dealloc(p, l);
        }
        if r.chance(0.25) {
            let n = K4 + 8 * (1 + r.below(50)) as u64;
            log.step(format!("tuple of {n} bytes"));
            let t = rt(|| q::__quantum__rt__tuple_create(n));
            unsafe {
                let last = t.cast::<u8>().add(n as usize - 1);
                if last.read() != 0 || t.cast::<u64>().read_unaligned() != 0 {
                    return Err(format!("a new tuple of {n} bytes is not zeroed"));
                }
                last.write(7);
                let grown = crate::alloc::live().bytes - before.bytes;
                if grown < n as i64 {
                    return Err(format!("a tuple of {n} bytes occupies {grown}"));
                }
                rt(|| q::__quantum__rt__tuple_update_reference_count(t, -1));
            }
            log.n("tuples_beyond_4GiB", 1);
        } else {
            log.step(format!("array of {n} elements of {elem} bytes"));
            let a = rt(|| q::__quantum__rt__array_create_1d(elem as u32, n));
            unsafe {
                if size(a) != n {
                    return Err(format!("an array of {n} elements of {elem} bytes has size {}", size(a)));
                }
                let base = at(a, 0) as usize;
                let mut ids = vec![n - 1, n / 2, 1, (K4 / elem).min(n - 1)];
                ids.extend((0..4).map(|_| r.u64() % n));
                ids.sort_unstable();
                ids.dedup();
                for i in &ids {
                    let p = at(a, *i);
                    if p as usize != base + (*i * elem) as usize {
                        return Err(format!("element {i} of {n} elements of {elem} bytes is {:#x} bytes after the first", (p as usize).wrapping_sub(base)));
                    }
                    if p.read() != 0 || p.add(elem as usize - 1).read() != 0 {
                        return Err(format!("element {i} of a new array is not zeroed"));
                    }
                }
                for (k, i) in ids.iter().enumerate() {
                    at(a, *i).write(k as i8 + 1);
                }
                for (k, i) in ids.iter().enumerate() {
                    if at(a, *i).read() != k as i8 + 1 {
                        return Err(format!("element {i} changed"));
                    }
                }
                log.n("elements_beyond_4GiB", ids.iter().filter(|i| **i * elem >= K4).count() as u64);
                if elem < 100_000 {
                    let j = n - 1;
                    let i = j - 1 - r.below(500.min(n as usize - 2)) as u64;
                    for (start, step, end) in [(i, (j - i) as i64, j), (j, -((j - i) as i64), i)] {
                        let s = rt(|| qir_stdlib::range_support::quantum__rt__array_slice_1d(a, qir_stdlib::range_support::Range { start: start as i64, step, end: end as i64 }));
                        if size(s) != 2 || at(s, 0).read() != at(a, start).read() || at(s, 1).read() != at(a, end).read() {
                            return Err(format!("the slice {start}..{step}..{end} is not those two elements"));
                        }
                        rt(|| q::__quantum__rt__array_update_reference_count(s, -1));
                    }
                    log.n("slices_beyond_4GiB", 2);
                }
                rt(|| q::__quantum__rt__array_update_reference_count(a, -1));
            }
        }
        let now = crate::alloc::live();
        if now.bytes - before.bytes > 1 << 20 {
            return Err(format!("{} bytes remain after the object was given up", now.bytes - before.bytes));
        }
        log.ctx(format!("huge {elem}"));
    }
    Ok(())
}

/// The same allocs history repeated must not accumulate memory.
pub fn repeat_balance(name: &str, seed: u64, len: usize) -> Option<String> {
    let mut after = vec![];
    for _ in 0..3 {
        let mut l = Log::default();
        if let Some(e) = run(name, seed, len, &mut l) {
            return Some(e);
        }
        drop(l);
        after.push(crate::alloc::live());
    }
    if (after[1].blocks, after[1].bytes) != (after[2].blocks, after[2].bytes) {
        return Some(format!("each run of the history leaves memory behind: {:?} after the second run, {:?} after the third", after[1], after[2]));
    }
    None
}

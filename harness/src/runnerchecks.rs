//! Checks of the runner: framing and entry choice, linking, end-to-end reproducibility.
use crate::ctx::{Ctx, catch, clip, ddmin};
use crate::qirprog::{self as qp, Emit, Gen, Ins, Prog, Sigs, V, hexstr};
use crate::refsim::{self, P, RefState};
use crate::rng::Rng;
use crate::stats;
use crate::targets::{buffer_output, take_output};
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::{CString, c_char, c_int, c_void};
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::ptr::null_mut;
use std::time::Duration;

// ---------------------------------------------------------------- LLVM: text to bitcode

unsafe extern "C" {
    fn LLVMContextCreate() -> *mut c_void;
    fn LLVMContextDispose(c: *mut c_void);
    fn LLVMCreateMemoryBufferWithMemoryRangeCopy(d: *const c_char, n: usize, name: *const c_char) -> *mut c_void;
    fn LLVMParseIRInContext(c: *mut c_void, b: *mut c_void, m: *mut *mut c_void, e: *mut *mut c_char) -> c_int;
    fn LLVMWriteBitcodeToMemoryBuffer(m: *mut c_void) -> *mut c_void;
    fn LLVMGetBufferStart(b: *mut c_void) -> *const u8;
    fn LLVMGetBufferSize(b: *mut c_void) -> usize;
    fn LLVMDisposeMemoryBuffer(b: *mut c_void);
    fn LLVMDisposeModule(m: *mut c_void);
}

fn bitcode(ir: &str) -> Result<Vec<u8>, String> {
    unsafe {
        let c = LLVMContextCreate();
        let name = CString::new("m").unwrap();
        let b = LLVMCreateMemoryBufferWithMemoryRangeCopy(ir.as_ptr().cast(), ir.len(), name.as_ptr());
        let (mut m, mut e) = (null_mut(), null_mut());
        if LLVMParseIRInContext(c, b, &mut m, &mut e) != 0 {
            let s = std::ffi::CStr::from_ptr(e).to_string_lossy().into_owned();
            LLVMContextDispose(c);
            return Err(s);
        }
        let o = LLVMWriteBitcodeToMemoryBuffer(m);
        let v = std::slice::from_raw_parts(LLVMGetBufferStart(o), LLVMGetBufferSize(o)).to_vec();
        LLVMDisposeMemoryBuffer(o);
        LLVMDisposeModule(m);
        LLVMContextDispose(c);
        Ok(v)
    }
}

/// bitcode inside the wrapper header of Darwin tools
fn wrapped(bc: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    for w in [0x0B17_C0DEu32, 0, 20, bc.len() as u32, 0x0100_0007] {
        v.extend_from_slice(&w.to_le_bytes());
    }
    v.extend_from_slice(bc);
    while v.len() % 16 != 0 {
        v.push(0);
    }
    v
}

// ---------------------------------------------------------------- running

fn show(b: &[u8]) -> String {
    clip(&String::from_utf8_lossy(b), 700)
}

/// Runs through the library with buffered records; an error must leave nothing behind.
fn lib(f: impl FnOnce(&mut Vec<u8>) -> Result<(), String>) -> Result<Vec<u8>, String> {
    buffer_output(true);
    let _ = take_output();
    let mut w = vec![];
    let r = catch(|| f(&mut w)).map_err(|p| format!("PANIC {p}"))?;
    let left = take_output();
    match r {
        Ok(()) if left.is_empty() => Ok(w),
        Ok(()) => Err(format!("UNDELIVERED {}", show(&left))),
        Err(e) if w.is_empty() && left.is_empty() => Err(e),
        Err(e) => Err(format!("EXECUTED although it reports '{e}': wrote {:?}, recorded {:?}", show(&w), show(&left))),
    }
}

fn run_text(ir: &str, entry: Option<&str>, shots: u32, seed: u64) -> Result<Vec<u8>, String> {
    lib(|w| runner::run_bytes(ir.as_bytes(), entry, shots, Some(seed), w))
}

fn exe() -> PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().join("qir-runner")
}

struct Cli {
    ok: bool,
    code: Option<i32>,
    out: Vec<u8>,
    err: String,
}

fn cli(args: &[&str], input: Option<&[u8]>) -> Cli {
    let mut c = Command::new(exe());
    c.args(args).stdout(Stdio::piped()).stderr(Stdio::piped());
    c.stdin(if input.is_some() { Stdio::piped() } else { Stdio::null() });
    let mut p = c.spawn().expect("the runner binary starts");
    if let Some(b) = input {
        let b = b.to_vec();
        let mut si = p.stdin.take().unwrap();
        std::thread::spawn(move || {
            let _ = si.write_all(&b);
        });
    }
    let o = p.wait_with_output().expect("the runner binary ends");
    Cli { ok: o.status.success(), code: o.status.code(), out: o.stdout, err: String::from_utf8_lossy(&o.stderr).into_owned() }
}

/// Blocks the runner must write, from calling the runtime directly.
fn direct(sg: &Sigs, p: &Prog, header: &str, seed: u64, shots: u32) -> (Vec<u8>, u64) {
    buffer_output(true);
    let _ = take_output();
    qir_backend::set_rng_seed(seed);
    let mut out = vec![];
    let mut calls = 0;
    for _ in 0..shots {
        out.extend_from_slice(header.as_bytes());
        qir_backend::__quantum__rt__initialize(null_mut());
        calls += qp::execute(sg, p);
        out.extend_from_slice(&take_output());
        out.extend_from_slice(b"END\t0\n");
    }
    (out, calls)
}

fn first_diff(a: &[u8], b: &[u8]) -> String {
    let (x, y): (Vec<&[u8]>, Vec<&[u8]>) = (a.split(|c| *c == b'\n').collect(), b.split(|c| *c == b'\n').collect());
    for i in 0..x.len().max(y.len()) {
        if x.get(i) != y.get(i) {
            let f = |v: Option<&&[u8]>| v.map_or("<nothing>".into(), |v| show(v));
            return format!("line {}: {:?} instead of {:?}", i + 1, f(x.get(i)), f(y.get(i)));
        }
    }
    "no difference".into()
}

// ---------------------------------------------------------------- C25

fn link_program(sg: &Sigs, seed: u64, keep: Option<&[usize]>) -> (Prog, String) {
    let mut p = qp::random(sg, seed);
    if let Some(k) = keep {
        p.snips = k.iter().filter_map(|i| p.snips.get(*i).cloned()).collect();
    }
    let ir = qp::module(sg, &p, "\"entry_point\"");
    (p, ir)
}

fn link_case(sg: &Sigs, seed: u64, keep: Option<&[usize]>) -> Result<(u64, String), String> {
    let (p, ir) = link_program(sg, seed, keep);
    let shots = 1 + (seed % 3) as u32;
    let got = run_text(&ir, None, shots, seed).map_err(|e| format!("a program of declared runtime functions is not run: {e}"))?;
    let (want, calls) = direct(sg, &p, "START\nMETADATA\tentry_point\n", seed, shots);
    if got != want {
        return Err(format!("the program does not do what calling the runtime directly does: {}", first_diff(&got, &want)));
    }
    Ok((calls, ir))
}

fn used(p: &Prog) -> BTreeSet<usize> {
    fn walk(b: &[Ins], s: &mut BTreeSet<usize>) {
        for i in b {
            match i {
                Ins::Call { f, .. } => {
                    s.insert(*f);
                }
                Ins::If { then, els, .. } => {
                    walk(then, s);
                    walk(els, s);
                }
                Ins::Loop { body, .. } | Ins::Sub { body } | Ins::Dead { body } => walk(body, s),
                _ => {}
            }
        }
    }
    let mut s = BTreeSet::new();
    walk(&p.pre, &mut s);
    walk(&p.post, &mut s);
    p.snips.iter().for_each(|b| walk(b, &mut s));
    s
}

/// A module that declares and (unreachably) calls the given functions, and would record something if run.
fn decl_module(decls: &[(String, String)]) -> String {
    let mut m = String::from(
        "define void @main() #0 {\n  call void @__quantum__rt__message(ptr null)\n  ret void\n}\n",
    );
    m.clear();
    m.push_str("define void @main() #0 {\n  %s = call ptr @__quantum__rt__string_create(ptr @text)\n  call void @__quantum__rt__message(ptr %s)\n  call void @__quantum__rt__string_update_reference_count(ptr %s, i32 -1)\n  br i1 false, label %u, label %x\nu:\n");
    for (n, a) in decls {
        let args: Vec<String> = a.chars().map(|c| format!("{} {}", tyname(c), zero(c))).collect();
        m.push_str(&format!("  call void @\"{}\"({})\n", hexstr(n.as_bytes()), args.join(", ")));
    }
    m.push_str("  br label %x\nx:\n  ret void\n}\n@text = internal constant [4 x i8] c\"ran\\00\"\n");
    let mut all: Vec<(String, String)> = decls.to_vec();
    for (n, a) in [("__quantum__rt__string_create", "p"), ("__quantum__rt__message", "p"), ("__quantum__rt__string_update_reference_count", "pw")] {
        if !all.iter().any(|(x, _)| x == n) {
            all.push((n.into(), a.into()));
        }
    }
    for (n, a) in &all {
        let args: Vec<&str> = a.chars().map(tyname).collect();
        let ret = if n == "__quantum__rt__string_create" { "ptr" } else { "void" };
        m.push_str(&format!("declare {ret} @\"{}\"({})\n", hexstr(n.as_bytes()), args.join(", ")));
    }
    m.push_str("attributes #0 = { \"entry_point\" }\n");
    m
}

fn tyname(c: char) -> &'static str {
    match c {
        'd' => "double",
        'l' => "i64",
        'w' => "i32",
        'b' => "i1",
        'u' => "i2",
        _ => "ptr",
    }
}

fn zero(c: char) -> &'static str {
    match c {
        'd' => "0.0",
        'p' | 'R' => "null",
        _ => "0",
    }
}

/// body: lines "name args"; verdict word first: accept | reject
fn decl_case(body: &str) -> Result<(), String> {
    let mut it = body.split_whitespace();
    let verdict = it.next().unwrap_or("");
    let v: Vec<String> = it.map(str::to_string).collect();
    let decls: Vec<(String, String)> = v.chunks(2).map(|c| (c[0].clone(), c[1].trim_start_matches('-').to_string())).collect();
    let r = run_text(&decl_module(&decls), None, 1, 1);
    match (verdict, r) {
        ("accept", Ok(o)) => {
            if o == b"START\nMETADATA\tentry_point\nINFO\tran\nEND\t0\n" {
                Ok(())
            } else {
                Err(format!("unexpected output {}", show(&o)))
            }
        }
        ("accept", Err(e)) => Err(format!("a module declaring {v:?} is rejected: {e}")),
        (_, Ok(_)) => Err(format!("a module declaring {v:?} is run")),
        (_, Err(e)) if e.starts_with("EXECUTED") || e.starts_with("PANIC") || e.starts_with("UNDELIVERED") => {
            Err(format!("a module declaring {v:?}: {e}"))
        }
        _ => Ok(()),
    }
}

fn args_text(a: &str) -> String {
    format!("-{a}")
}

fn decl_cases(sg: &Sigs, r: &mut Rng) -> Vec<(String, &'static str)> {
    let mut by: BTreeMap<&str, Vec<&str>> = BTreeMap::new();
    for s in &sg.0 {
        by.entry(s.name).or_default().push(s.args);
    }
    let mut v: Vec<(String, &'static str)> = vec![];
    for (n, forms) in &by {
        // the three functions the skeleton itself calls keep their own types
        for a in forms {
            v.push((format!("accept {n} {}", args_text(a)), "declarations_accepted"));
        }
        let skeleton = ["__quantum__rt__string_create", "__quantum__rt__message", "__quantum__rt__string_update_reference_count"].contains(n);
        for k in 0..9 {
            if skeleton || forms.iter().any(|a| a.len() == k) {
                continue;
            }
            // the known types as far as they go, then others
            let base: Vec<char> = forms[0].chars().map(|c| if c == 'R' { 'p' } else { c }).collect();
            let a: String = (0..k).map(|i| base.get(i).copied().unwrap_or_else(|| *r.pick(&['p', 'l', 'd']))).collect();
            v.push((format!("reject {n} {}", args_text(&a)), "miscounted_declarations_rejected"));
        }
    }
    // unknown names: libc, near misses, other runtimes
    let names: Vec<&str> = by.keys().copied().collect();
    let mut unknown: Vec<String> = ["puts", "exit", "malloc", "sin", "abort", "getenv", "main2", "__quantum__qis__foo__body", "__quantum__rt__array_create"]
        .iter()
        .map(|s| (*s).to_string())
        .collect();
    for n in &names {
        let mut c: Vec<char> = n.chars().collect();
        match r.below(5) {
            0 => c.push('x'),
            1 => {
                c.pop();
            }
            2 => {
                let i = r.below(c.len());
                c[i] = if c[i] == 'q' { 'Q' } else { 'q' };
            }
            3 => {
                c.remove(0);
            }
            _ => {
                let s: String = c.iter().collect();
                c = if s.contains("__body") { s.replace("__body", "__adjoint") } else { s.to_uppercase() }.chars().collect();
            }
        }
        let s: String = c.into_iter().collect();
        if !by.contains_key(s.as_str()) {
            unknown.push(s);
        }
    }
    for u in unknown {
        let a: String = (0..r.below(3)).map(|_| *r.pick(&['p', 'l', 'd'])).collect();
        let other = *r.pick(&names);
        let f = by[other][0];
        if r.bool() {
            v.push((format!("reject {u} {} {other} {}", args_text(&a), args_text(f)), "unknown_functions_rejected"));
        } else {
            v.push((format!("reject {u} {}", args_text(&a)), "unknown_functions_rejected"));
        }
    }
    // legacy and labelled recording
    let rt = |s: &str| format!("__quantum__rt__{s}_record_output");
    let legacy: Vec<(String, &str)> = [("array_start", ""), ("array_end", ""), ("tuple_start", ""), ("tuple_end", ""), ("int", "l"), ("double", "d"), ("bool", "b"), ("result", "p")]
        .iter()
        .map(|(a, b)| (rt(a), *b))
        .collect();
    let labelled: Vec<(String, &str)> =
        [("array", "lp"), ("tuple", "lp"), ("int", "lp"), ("double", "dp"), ("bool", "bp"), ("result", "pp")].iter().map(|(a, b)| (rt(a), *b)).collect();
    for (i, (a, x)) in legacy.iter().enumerate() {
        for (b, y) in &labelled {
            if a != b {
                v.push((format!("reject {a} {} {b} {}", args_text(x), args_text(y)), "mixed_recordings_rejected"));
            }
        }
        let (b, y) = &legacy[(i + 1) % legacy.len()];
        v.push((format!("accept {a} {} {b} {}", args_text(x), args_text(y)), "declarations_accepted"));
    }
    for (i, (a, x)) in labelled.iter().enumerate() {
        let (b, y) = &labelled[(i + 1) % labelled.len()];
        v.push((format!("accept {a} {} {b} {}", args_text(x), args_text(y)), "declarations_accepted"));
    }
    v
}

pub fn c25(cx: &mut Ctx) {
    let sg = Sigs::new();
    // every name with every parameter count, unknown names, mixed recording: shared by the shards
    let mut r0 = Rng::derive(cx.seed ^ 0x25, 0);
    let cases = decl_cases(&sg, &mut r0);
    for (i, (body, what)) in cases.iter().enumerate() {
        if i % cx.shards != cx.shard || cx.viols.len() >= cx.max_viols {
            continue;
        }
        cx.journal("runner-decl", body);
        cx.n(what, 1);
        cx.n("declarations_judged", 1);
        cx.seen_text(body);
        if let Err(e) = decl_case(body) {
            cx.violation("runner-decl", body, &e);
        }
    }
    let mut r = cx.rng(1);
    let mut names: BTreeSet<usize> = BTreeSet::new();
    for _ in 0..cx.cases(16_000) {
        if cx.time_up() {
            break;
        }
        let seed = r.u64() >> 1;
        let body = format!("{seed}\n");
        cx.journal("runner-link", &body);
        cx.n("programs_linked", 1);
        match link_case(&sg, seed, None) {
            Ok((calls, ir)) => {
                cx.n("runtime_calls_compared", calls);
                let u = used(&link_program(&sg, seed, None).0);
                cx.seen_text(&format!("{u:?}"));
                names.extend(u);
                if cx.samples.len() < 2 {
                    cx.sample(ir);
                }
            }
            Err(e) => {
                let n = link_program(&sg, seed, None).0.snips.len();
                let all: Vec<usize> = (0..n).collect();
                let k = ddmin(&all, Duration::from_secs(15), |k| link_case(&sg, seed, Some(k)).is_err());
                let k = if link_case(&sg, seed, Some(&[])).is_err() { vec![] } else { k };
                let (_, ir) = link_program(&sg, seed, Some(&k));
                let ks: Vec<String> = k.iter().map(ToString::to_string).collect();
                let irc: String = ir.lines().map(|l| format!("#ir {l}\n")).collect();
                cx.violation("runner-link", &format!("{seed} {}\n{irc}", ks.join(" ")), &e);
            }
        }
    }
    for f in names {
        cx.max(&format!("function_{f:03}_{}", sg.0[f].name), 1.0);
    }
}

// ---------------------------------------------------------------- C24

struct Func {
    name: String,
    attrs: Vec<(String, String)>,
    marked: bool,
    /// attributes of LLVM's own (no string attributes): they say nothing about the program
    native: String,
    params: &'static str,
    ret: (&'static str, &'static str),
    prog: Prog,
}

struct Mod {
    funcs: Vec<Func>,
    ir: String,
}

fn attr_text(a: &[(String, String)]) -> String {
    a.iter()
        .map(|(k, v)| {
            let k = hexstr(k.as_bytes());
            if v.is_empty() { format!("\"{k}\"") } else { format!("\"{k}\"=\"{}\"", hexstr(v.as_bytes())) }
        })
        .collect::<Vec<_>>()
        .join(" ")
}

/// kind: 0 one marked, 1 several marked, 2 none marked, 3 the marked one has parameters
fn random_module(sg: &Sigs, seed: u64, kind: usize) -> Mod {
    let mut r = Rng::new(seed);
    let legacy = r.bool();
    let n = match kind {
        1 => 2 + r.below(3),
        _ => 1 + r.below(4),
    };
    let mut names: Vec<String> =
        ["main", "Main", "ENTRYPOINT__main", "main__body", "a b", "p.q$r", "\u{3c0}", "entry_point", "run", "x-y", "qu\"ote", "\u{1F600}"]
            .iter()
            .map(|s| (*s).to_string())
            .collect();
    r.shuffle(&mut names);
    let marked: Vec<bool> = match kind {
        0 | 3 => {
            let k = r.below(n);
            (0..n).map(|i| i == k).collect()
        }
        1 => {
            let k = 2 + r.below(n - 1);
            let mut v: Vec<bool> = (0..n).map(|i| i < k).collect();
            r.shuffle(&mut v);
            v
        }
        _ => vec![false; n],
    };
    let mut g = Gen {
        r: &mut r,
        sg,
        stat: true,
        dynres: false,
        legacy,
        qubits: (0..3).map(V::Q).collect(),
        regs: vec![],
        callables: false,
        nosnap: false,
    };
    let mut parts = vec![];
    for i in 0..n {
        let k = g.r.below(4);
        let mut sn: Vec<Vec<Ins>> = (0..k).map(|_| g.snippet(1)).collect();
        // every function says which one it is
        let mut b = vec![];
        let s = g.call(&mut b, "__quantum__rt__string_create", &[V::Str(format!("function {i}").into_bytes())]);
        g.call(&mut b, "__quantum__rt__message", &[s.clone()]);
        g.call(&mut b, "__quantum__rt__string_update_reference_count", &[s, V::I(-1)]);
        let at = g.r.below(sn.len() + 1);
        if g.r.chance(0.9) || kind != 0 {
            sn.insert(at, b);
        }
        parts.push(sn);
    }
    let (regs, callables) = (g.regs.clone(), g.callables);
    let mut funcs = vec![];
    for (i, sn) in parts.into_iter().enumerate() {
        let mut attrs: Vec<(String, String)> = vec![];
        if marked[i] {
            let k = if r.chance(0.2) { "EntryPoint" } else { "entry_point" };
            attrs.push((k.into(), if r.chance(0.2) { "yes".into() } else { String::new() }));
        }
        for (k, v) in [
            ("required_num_qubits", "3"),
            ("required_num_results", "5"),
            ("output_labeling_schema", "schema id"),
            ("qir_profiles", "base_profile"),
            ("output_labeling_schema2", ""),
            ("entrypoint", ""),
            ("ENTRY_POINT", "1"),
            ("a=b", "c \"d\" \\e"),
            ("\u{e9}t\u{e9}", "\u{1F600}"),
            ("entry_point_id", "main"),
        ] {
            if r.chance(0.35) {
                attrs.push((k.into(), v.into()));
            }
        }
        let native: Vec<&str> = if r.chance(0.4) { ["nounwind", "noinline", "mustprogress", "cold", "alignstack(16)", "uwtable"].into_iter().filter(|_| r.chance(0.4)).collect() } else { vec![] };
        let native = native.join(" ");
        let params = if kind == 3 && marked[i] { *r.pick(&["i64 %p", "ptr %p", "i64 %p, ptr %q", "double %p"]) } else { "" };
        let ret = match r.below(12) {
            0..=6 => *r.pick(&[("void", "ret void"), ("void", "ret void"), ("i64", "ret i64 0"), ("i64", "ret i64 7"), ("i32", "ret i32 3")]),
            _ => *r.pick(&[("i1", "ret i1 1"), ("i8", "ret i8 -3"), ("i16", "ret i16 9"), ("double", "ret double 1.5"), ("float", "ret float 1.5"), ("ptr", "ret ptr null")]),
        };
        funcs.push(Func {
            name: names[i].clone(),
            attrs,
            native,
            marked: marked[i],
            params,
            ret,
            prog: Prog { legacy, regs: regs.clone(), pre: vec![], snips: sn, post: vec![], callables },
        });
    }
    let mut e = Emit::new(sg, &regs);
    let mut ir = String::new();
    for (i, f) in funcs.iter().enumerate() {
        let ps: Vec<&[Ins]> = f.prog.snips.iter().map(Vec::as_slice).collect();
        let at = if f.attrs.is_empty() && f.native.is_empty() { String::new() } else { format!(" #{i}") };
        ir += &e.function(&format!("define {} @\"{}\"({}){at}", f.ret.0, hexstr(f.name.as_bytes()), f.params), &ps, f.ret.1);
    }
    ir += &e.rest(legacy, callables);
    for (i, f) in funcs.iter().enumerate() {
        if !(f.attrs.is_empty() && f.native.is_empty()) {
            ir += &format!("attributes #{i} = {{ {} {} }}\n", f.native.replace("alignstack(16)", "alignstack=16"), attr_text(&f.attrs));
        }
    }
    Mod { funcs, ir }
}

/// METADATA lines directly after START in sorted order (the property fixes the set, not the order)
fn sort_headers(out: &[u8]) -> Vec<u8> {
    let mut res: Vec<Vec<u8>> = vec![];
    let lines: Vec<Vec<u8>> = out.split_inclusive(|c| *c == b'\n').map(<[u8]>::to_vec).collect();
    let mut i = 0;
    while i < lines.len() {
        res.push(lines[i].clone());
        if lines[i] == b"START\n" {
            let j = (i + 1..lines.len()).find(|j| !lines[*j].starts_with(b"METADATA\t")).unwrap_or(lines.len());
            let mut h = lines[i + 1..j].to_vec();
            h.sort();
            res.extend(h);
            i = j;
        } else {
            i += 1;
        }
    }
    res.concat()
}

struct Slow<'a> {
    data: &'a [u8],
    r: Rng,
    fail_at: Option<usize>,
    pos: usize,
}

impl Read for Slow<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.r.chance(0.2) {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        if self.fail_at.is_some_and(|f| self.pos >= f) {
            return Err(std::io::Error::other("broken pipe"));
        }
        let left = self.fail_at.unwrap_or(self.data.len()).min(self.data.len()) - self.pos;
        let n = (1 + self.r.below(700)).min(b.len()).min(left);
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

fn dir(work: &Path) -> PathBuf {
    let d = work.join(format!("files.{}", std::process::id()));
    let _ = std::fs::create_dir_all(&d);
    d
}

#[derive(Default)]
struct Seen {
    blocks: u64,
    runs: u64,
    cli: u64,
    what: String,
}

/// A module with a valid choice of entry, through every form of input.
fn frame_case(sg: &Sigs, seed: u64, work: &Path) -> Result<Seen, String> {
    let mut r = Rng::new(seed ^ 0xF00D);
    let kind = r.below(2);
    let m = random_module(sg, seed, kind);
    let marked: Vec<&Func> = m.funcs.iter().filter(|f| f.marked).collect();
    let f = *r.pick(&marked);
    let by_name = marked.len() > 1 || r.bool();
    let entry = if by_name { Some(f.name.as_str()) } else { None };
    let shots = if r.chance(0.01) { *r.pick(&[65u32, 257, 300]) } else { *r.pick(&[0u32, 1, 1, 2, 3, 7]) };
    let rs = if r.chance(0.1) { *r.pick(&[0, u64::MAX]) } else { r.u64() };
    let mut head: Vec<String> = f
        .attrs
        .iter()
        .map(|(k, v)| if v.is_empty() { format!("METADATA\t{k}\n") } else { format!("METADATA\t{k}\t{v}\n") })
        .collect();
    head.sort_by(|a, b| a.as_bytes().cmp(b.as_bytes()));
    let header = format!("START\n{}", head.concat());
    let (want, _) = direct(sg, &f.prog, &header, rs, shots);
    let mut s = Seen { what: format!("{kind} {by_name} {shots} {} {} {}", m.funcs.len(), f.attrs.len(), f.ret.0), ..Default::default() };
    let judge = |got: Result<Vec<u8>, String>, how: &str, s: &mut Seen| -> Result<Vec<u8>, String> {
        let got = got.map_err(|e| format!("{how}: a valid program is not run: {e}"))?;
        s.runs += 1;
        s.blocks += u64::from(shots);
        let n = sort_headers(&got);
        if n != want {
            return Err(format!("{how}: wrong output for entry {:?}, {shots} shots: {}", f.name, first_diff(&n, &want)));
        }
        Ok(got)
    };
    let a = judge(run_text(&m.ir, entry, shots, rs), "text through run_bytes", &mut s)?;
    let bc = bitcode(&m.ir).map_err(|e| format!("harness: {e}"))?;
    let wr = wrapped(&bc);
    let same = |b: Vec<u8>, how: &str| if a == b { Ok(()) } else { Err(format!("{how}: output differs from that of the text: {}", first_diff(&b, &a))) };
    let d = dir(work);
    for (i, data) in [m.ir.as_bytes(), &bc, &wr].iter().enumerate() {
        let what = ["text", "bitcode", "wrapped bitcode"][i];
        let how = format!("{what} through run_bytes");
        same(judge(lib(|w| runner::run_bytes(data, entry, shots, Some(rs), w)), &how, &mut s)?, &how)?;
        let how = format!("{what} through run_input");
        let mut sl = Slow { data, r: r.clone(), fail_at: None, pos: 0 };
        same(judge(lib(|w| runner::run_input(&mut sl, entry, shots, Some(rs), w)), &how, &mut s)?, &how)?;
        let how = format!("{what} through run_bitcode");
        let g = lib(|w| {
            qir_backend::set_rng_seed(rs);
            runner::run_bitcode(data, entry, shots, w)
        });
        same(judge(g, &how, &mut s)?, &how)?;
        let file = d.join(["m.ll", "m.bc", "w.bc"][i]);
        std::fs::write(&file, data).map_err(|e| e.to_string())?;
        let how = format!("{what} through run_file");
        same(judge(lib(|w| runner::run_file(&file, entry, shots, Some(rs), w)), &how, &mut s)?, &how)?;
    }
    if r.chance(0.25) {
        let (data, file) = *r.pick(&[(m.ir.as_bytes(), "m.ll"), (&bc[..], "m.bc")]);
        let path = d.join(file).display().to_string();
        let long = r.bool();
        let o = |l: &'static str, sh: &'static str| if long { l } else { sh };
        let (sh, seed_s) = (shots.to_string(), rs.to_string());
        let mut args: Vec<&str> = vec![o("--rngseed", "-r"), &seed_s];
        if shots != 1 || r.bool() {
            args.extend([o("--shots", "-s"), &sh]);
        }
        if let Some(e) = entry {
            args.extend([o("--entrypoint", "-e"), e]);
        }
        let stdin = r.bool();
        if !stdin {
            args.extend([o("--file", "-f"), &path]);
        } else if r.bool() {
            args.extend(["-f", "-"]);
        }
        let c = cli(&args, stdin.then_some(data));
        s.cli += 1;
        let how = format!("command line {args:?}");
        if !c.ok {
            return Err(format!("{how}: exit code {:?}, {}", c.code, clip(&c.err, 500)));
        }
        same(judge(Ok(c.out), &how, &mut s)?, &how)?;
    }
    let _ = std::fs::remove_dir_all(&d);
    Ok(s)
}

/// Inputs that must be refused with nothing executed, each followed by a valid run.
fn refuse_case(sg: &Sigs, seed: u64, work: &Path) -> Result<Vec<&'static str>, String> {
    let mut r = Rng::new(seed ^ 0xBAD);
    let d = dir(work);
    let shots = r.below(3) as u32;
    let good = random_module(sg, seed, 0);
    let one = good.funcs.iter().find(|f| f.marked).unwrap();
    let mut seen = vec![];
    let which = r.below(15);
    let mut refuse = |what: &'static str, got: Result<Vec<u8>, String>| -> Result<(), String> {
        seen.push(what);
        match got {
            Ok(o) => Err(format!("{what}: accepted with {shots} shots, wrote {:?}", show(&o))),
            Err(e) if e.starts_with("EXECUTED") || e.starts_with("PANIC") || e.starts_with("UNDELIVERED") => Err(format!("{what}: {e}")),
            Err(_) => Ok(()),
        }
    };
    let go = |ir: &str, e: Option<&str>| run_text(ir, e, shots, 5);
    let put = |n: &str, b: &[u8]| {
        let f = d.join(n);
        std::fs::write(&f, b).unwrap();
        f
    };
    let file = |f: &Path| lib(|w| runner::run_file(f, None, shots, Some(5), w));
    match which {
        0 => refuse("no entry point", go(&random_module(sg, seed, 2).ir, None))?,
        1 => refuse("several entry points, none named", go(&random_module(sg, seed, 1).ir, None))?,
        2 => {
            let m = random_module(sg, seed, 2);
            refuse("named function not marked", go(&m.ir, Some(&m.funcs[0].name)))?;
        }
        3 => {
            for n in ["", "missing", "mai", "MAIN2", &format!("{} ", one.name), &one.name.to_lowercase().repeat(2)] {
                refuse("named function missing", go(&good.ir, Some(n)))?;
            }
        }
        4 => {
            let m = random_module(sg, seed, 3);
            let f = m.funcs.iter().find(|f| f.marked).unwrap();
            refuse("entry point with parameters", go(&m.ir, if r.bool() { Some(&f.name) } else { None }))?;
        }
        5 => {
            for n in ["m.txt", "m", "m.LL", "m.BC", "m.ll.bak", "m.qir", ".ll"] {
                refuse("unsupported extension", file(&put(n, good.ir.as_bytes())))?;
            }
        }
        6 => refuse("missing file", file(&d.join(if r.bool() { "nothing.ll" } else { "nothing.bc" })))?,
        7 => {
            let mut e: &[u8] = &[];
            refuse("empty input", lib(|w| runner::run_input(&mut e, None, shots, Some(5), w)))?;
            refuse("empty input", lib(|w| runner::run_bytes(&[], None, shots, Some(5), w)))?;
            refuse("empty input", lib(|w| runner::run_bitcode(&[], None, shots, w)))?;
            let n = 1 + r.below(3);
            refuse("input of a few bytes", lib(|w| runner::run_bytes(&b"; x\n"[..n], None, shots, Some(5), w)))?;
            refuse("input of blanks", lib(|w| runner::run_bytes(b"\n\n\n\n\n\n", None, shots, Some(5), w)))?;
            refuse("empty file", file(&put("e.ll", b"")))?;
            refuse("empty file", file(&put("e.bc", b"")))?;
        }
        8 => {
            let mut g: Vec<u8> = (0..4 + r.below(60)).map(|_| r.u64() as u8).collect();
            refuse("garbage", lib(|w| runner::run_bytes(&g, None, shots, Some(5), w)))?;
            g[..4].copy_from_slice(&[0x42, 0x43, 0xC0, 0xDE]);
            refuse("garbage behind the bitcode magic", lib(|w| runner::run_bytes(&g, None, shots, Some(5), w)))?;
            refuse("garbage file", file(&put("g.ll", &g[4..])))?;
            refuse("garbage file", file(&put("g.bc", &g)))?;
        }
        9 => {
            // cut inside the definition of the first function
            let at = good.ir.find('{').unwrap() + 1 + r.below(12);
            let mut at = at;
            while !good.ir.is_char_boundary(at) {
                at += 1;
            }
            refuse("truncated text", go(&good.ir[..at], None))?;
            refuse("text behind the bitcode extension", file(&put("t.bc", good.ir.as_bytes())))?;
            let mut sl = Slow { data: good.ir.as_bytes(), r: r.clone(), fail_at: Some(r.below(good.ir.len())), pos: 0 };
            refuse("failing reader", lib(|w| runner::run_input(&mut sl, None, shots, Some(5), w)))?;
        }
        10 => {
            let bad = ["  %v = add i64 %v, 1\n", "  br label %y\ny:\n  %u = add i64 %w, 1\n  %w = add i64 1, 1\n"];
            let b = r.pick(&bad).to_string();
            let m = good.ir.replacen("x:\n", &format!("x:\n{b}"), 1);
            refuse("module that fails verification", go(&m, None))?;
            refuse("module that fails verification", file(&put("v.ll", m.as_bytes())))?;
        }
        11 => {
            let g = good.ir.as_bytes();
            let cases: Vec<(&'static str, Vec<&str>, Option<&[u8]>)> = vec![
                ("command line: unparsable shots", vec!["-s", "x"], Some(g)),
                ("command line: negative shots", vec!["-s", "-1"], Some(g)),
                ("command line: too many shots", vec!["-s", "4294967296"], Some(g)),
                ("command line: unparsable seed", vec!["-r", "-5"], Some(g)),
                ("command line: unknown option", vec!["--nope"], Some(g)),
                ("command line: empty input", vec!["-s", "2"], Some(b"")),
                ("command line: missing file", vec!["-f", "/nonexistent/x.ll"], None),
                ("command line: missing entry", vec!["-e", "missing"], Some(g)),
            ];
            let (what, args, input) = r.pick(&cases).clone();
            let c = cli(&args, input);
            let res = if c.ok {
                Ok(c.out)
            } else if c.out.is_empty() && c.code.is_some() {
                Err("refused".into())
            } else {
                Err(format!("EXECUTED wrote {:?}, exit code {:?}", show(&c.out), c.code))
            };
            refuse(what, res)?;
        }
        12 => {
            // a failing program ends the process with an error after what it recorded, without an END line
            let s = "define void @main() #0 {\n  %s = call ptr @__quantum__rt__string_create(ptr @t)\n  call void @__quantum__rt__message(ptr %s)\n  \
                     call void @__quantum__rt__fail(ptr %s)\n  call void @__quantum__rt__message(ptr %s)\n  ret void\n}\n@t = internal constant [4 x i8] c\"bad\\00\"\n\
                     declare ptr @__quantum__rt__string_create(ptr)\ndeclare void @__quantum__rt__message(ptr)\ndeclare void @__quantum__rt__fail(ptr)\n\
                     attributes #0 = { \"entry_point\" }\n";
            let c = cli(&["-s", "3"], Some(s.as_bytes()));
            seen.push("failing program");
            let text = String::from_utf8_lossy(&c.out).into_owned();
            if c.ok || !text.starts_with("START\nMETADATA\tentry_point\nINFO\tbad\n") || text.contains("END") || text.matches("INFO\tbad").count() > 2 {
                return Err(format!("a failing program: exit code {:?}, wrote {text:?}", c.code));
            }
        }
        13 => {
            // only numbers and pointers come back from an entry point
            let types = ["{ i64, i64 }", "{ i8 }", "[20 x i64]", "[1 x i32]", "<4 x i32>", "<2 x double>", "half", "fp128", "x86_fp80", "bfloat", "i128", "i65", "i1000", "{ ptr, { i8, [3 x double] } }"];
            let t = *r.pick(&types);
            let zero = match t {
                "half" | "bfloat" => "0.0",
                "fp128" => "0xL00000000000000000000000000000000",
                "x86_fp80" => "0xK00000000000000000000",
                t if t.starts_with('i') => "0",
                _ => "zeroinitializer",
            };
            let m = format!(
                "define {t} @main() #0 {{\n  call void @__quantum__rt__tuple_record_output(i64 1, ptr null)\n  ret {t} {zero}\n}}\n\
                 declare void @__quantum__rt__tuple_record_output(i64, ptr)\nattributes #0 = {{ \"entry_point\" }}\n"
            );
            refuse("entry point that returns a composite or odd value", go(&m, if r.bool() { Some("main") } else { None }))?;
        }
        _ => {
            let c = cli(&[*r.pick(&["--help", "--version", "-h", "-V"])], Some(b""));
            seen.push("command line: help");
            if !c.ok || !c.out.is_empty() {
                return Err(format!("help or version: exit code {:?}, standard output {:?}", c.code, show(&c.out)));
            }
        }
    }
    // the refusal leaves no trace
    let attrs: Vec<String> = vec![];
    let _ = attrs;
    let got = run_text(&good.ir, Some(&one.name), 1, 9).map_err(|e| format!("a valid program after a refused one is not run: {e}"))?;
    let mut head: Vec<String> =
        one.attrs.iter().map(|(k, v)| if v.is_empty() { format!("METADATA\t{k}\n") } else { format!("METADATA\t{k}\t{v}\n") }).collect();
    head.sort_by(|a, b| a.as_bytes().cmp(b.as_bytes()));
    let (want, _) = direct(sg, &one.prog, &format!("START\n{}", head.concat()), 9, 1);
    if sort_headers(&got) != want {
        return Err(format!("a valid run after a refused one ({:?}) differs: {}", seen, first_diff(&got, &want)));
    }
    let _ = std::fs::remove_dir_all(&d);
    Ok(seen)
}

/// Writes modules with what the library makes of them, for the checker of the Python package.
pub fn py_cases(seed: u64, n: usize, d: &Path) {
    let sg = Sigs::new();
    let mut r = Rng::new(seed ^ 0x9E37_79B9);
    let mut index = String::new();
    for i in 0..n {
        let s = r.u64() >> 1;
        let (ir, entry) = match r.below(10) {
            0..=1 => (link_program(&sg, s, None).1, None),
            k => {
                let kind = match k {
                    2..=5 => 0,
                    6..=7 => 1,
                    8 => 2,
                    _ => 3,
                };
                let m = random_module(&sg, s, kind);
                let entry = if r.bool() {
                    let f = r.pick(&m.funcs);
                    Some(if r.chance(0.9) { f.name.clone() } else { format!("{}_", f.name) })
                } else {
                    None
                };
                (m.ir, entry)
            }
        };
        let ir = match r.below(25) {
            0 => ir.chars().take(r.below(ir.len())).collect(),
            1 => format!("{ir}\ndefine void @\"calls unknown\"() {{\n  call void @__quantum__qis__nope__body()\n  ret void\n}}\ndeclare void @__quantum__qis__nope__body()\n"),
            2 => String::new(),
            _ => ir,
        };
        let shots = *r.pick(&[0u32, 1, 1, 2, 3, 5]);
        let rs = if r.chance(0.1) { *r.pick(&[0, u64::MAX]) } else { r.u64() };
        let res = run_text(&ir, entry.as_deref(), shots, rs);
        if res.as_ref().is_err_and(|e| e.starts_with("PANIC") || e.starts_with("EXECUTED") || e.starts_with("UNDELIVERED")) {
            continue;
        }
        let hex = |b: &[u8]| b.iter().map(|x| format!("{x:02x}")).collect::<String>();
        std::fs::write(d.join(format!("{i}.ll")), &ir).unwrap();
        if let Ok(b) = bitcode(&ir) {
            std::fs::write(d.join(format!("{i}.bc")), b).unwrap();
        }
        let (k, v) = match &res {
            Ok(o) => ("ok", hex(o)),
            Err(e) => ("err", hex(e.as_bytes())),
        };
        index += &format!("{i}\t{}\t{shots}\t{rs}\t{k}\t{v}\n", entry.map_or("-".into(), |e| format!("x{}", hex(e.as_bytes()))));
    }
    std::fs::write(d.join("index"), index).unwrap();
}

pub fn c24(cx: &mut Ctx) {
    let sg = Sigs::new();
    let work = cx.work.clone();
    let mut r = cx.rng(1);
    for _ in 0..cx.cases(1600) {
        if cx.time_up() {
            break;
        }
        let seed = r.u64() >> 1;
        let body = format!("{seed}\n");
        cx.journal("runner-frame", &body);
        match frame_case(&sg, seed, &work) {
            Ok(s) => {
                cx.n("blocks_judged", s.blocks);
                cx.n("runs_compared", s.runs);
                cx.n("command_line_runs", s.cli);
                cx.n("modules", 1);
                cx.seen_text(&s.what);
                if cx.samples.len() < 2 {
                    cx.sample(s.what);
                }
            }
            Err(e) => cx.violation("runner-frame", &body, &e),
        }
        let seed = r.u64() >> 1;
        let body = format!("{seed}\n");
        cx.journal("runner-refuse", &body);
        match refuse_case(&sg, seed, &work) {
            Ok(s) => {
                for w in s {
                    cx.n(&format!("refused: {w}"), 1);
                    cx.n("inputs_refused", 1);
                }
            }
            Err(e) => cx.violation("runner-refuse", &body, &e),
        }
    }
}

// ---------------------------------------------------------------- C26

#[derive(Clone, Debug)]
enum D {
    G(u8, usize),
    Cx(usize, usize),
    Cz(usize, usize),
    Rot(P, f64, usize),
    M(usize, usize),
    MReset(usize, usize),
    Reset(usize),
    If(usize, Vec<D>, Vec<D>),
    Draw(i64, i64),
    Rec(usize),
}

fn rand_d(r: &mut Rng, nq: usize, budget: &mut usize, depth: usize, res: &mut usize) -> Vec<D> {
    let mut v = vec![];
    for _ in 0..2 + r.below(7) {
        let q = r.below(nq);
        let p = (q + 1 + r.below(nq - 1)) % nq;
        match r.below(14) {
            0..=2 => v.push(D::G(r.below(8) as u8, q)),
            3 | 4 => v.push(D::G(0, q)),
            5 => v.push(D::Cx(q, p)),
            6 => v.push(D::Cz(q, p)),
            7 | 8 => v.push(D::Rot(*r.pick(&[P::X, P::Y, P::Z]), (r.f64() - 0.5) * 7.0, q)),
            9 | 10 if *budget > 0 && depth == 0 => {
                *budget -= 1;
                v.push(D::M(q, *res));
                if r.bool() {
                    v.push(D::Rec(*res));
                }
                *res += 1;
            }
            11 if *budget > 0 && depth == 0 => {
                *budget -= 1;
                v.push(D::MReset(q, *res));
                v.push(D::Rec(*res));
                *res += 1;
            }
            12 if *budget > 0 => {
                *budget -= 1;
                if r.bool() {
                    v.push(D::Reset(q));
                } else {
                    let a = r.range(-3, 3);
                    v.push(D::Draw(a, a + r.range(0, 3)));
                }
            }
            13 if *res > 0 && depth == 0 => {
                let k = r.below(*res);
                let a = rand_d(r, nq, budget, 1, res);
                let b = if r.bool() { rand_d(r, nq, budget, 1, res) } else { vec![] };
                v.push(D::If(k, a, b));
            }
            _ => {}
        }
    }
    v
}

fn undraw(v: &mut [D]) {
    for d in v {
        match d {
            D::Draw(a, b) => *b = *a,
            D::If(_, x, y) => {
                undraw(x);
                undraw(y);
            }
            _ => {}
        }
    }
}

/// `drawless`: classical draws, which the seed does not cover, have one outcome
fn d_program(seed: u64, drawless: bool) -> (usize, Vec<D>) {
    let (n, mut v) = d_random(seed);
    if drawless {
        undraw(&mut v);
    }
    (n, v)
}

fn d_random(seed: u64) -> (usize, Vec<D>) {
    let mut r = Rng::new(seed);
    let nq = 2 + r.below(3);
    let mut budget = 5;
    let mut res = 0;
    let mut v = vec![];
    while res == 0 {
        v = rand_d(&mut r, nq, &mut budget, 0, &mut res);
        if budget == 0 {
            budget = 5;
        }
    }
    for q in 0..nq {
        if r.chance(0.6) && budget > 0 {
            budget -= 1;
            v.push(D::M(q, res));
            v.push(D::Rec(res));
            res += 1;
        }
    }
    if !v.iter().any(|d| matches!(d, D::Rec(_))) {
        v.push(D::Rec(0));
    }
    (nq, v)
}

struct Branch {
    p: f64,
    st: RefState,
    res: BTreeMap<usize, bool>,
    key: String,
}

fn d_eval(ops: &[D], mut bs: Vec<Branch>) -> Vec<Branch> {
    use refsim::*;
    for op in ops {
        let mut next = vec![];
        for mut b in bs {
            let split = |b: Branch, q: usize, set: Option<usize>, clear: bool, next: &mut Vec<Branch>| {
                let p1 = b.st.prob_odd(&[q]);
                for (v, p) in [(false, 1.0 - p1), (true, p1)] {
                    if p < 1e-13 {
                        continue;
                    }
                    let mut st = b.st.clone();
                    st.project(&[q], v);
                    if clear {
                        st.clear_bit(q);
                    }
                    let mut res = b.res.clone();
                    if let Some(k) = set {
                        res.insert(k, v);
                    }
                    next.push(Branch { p: b.p * p, st, res, key: b.key.clone() });
                }
            };
            match op {
                D::G(k, q) => {
                    let m = [m_h(), m_x(), m_y(), m_phase(c(-1.0, 0.0)), m_phase(c(0.0, 1.0)), m_phase(c(0.5f64.sqrt(), 0.5f64.sqrt())), m_sx(), m_phase(c(0.0, -1.0))]
                        [*k as usize];
                    b.st.apply1(&m, &[], *q);
                    next.push(b);
                }
                D::Cx(a, t) => {
                    b.st.apply1(&m_x(), &[*a], *t);
                    next.push(b);
                }
                D::Cz(a, t) => {
                    b.st.apply1(&m_phase(c(-1.0, 0.0)), &[*a], *t);
                    next.push(b);
                }
                D::Rot(p, th, q) => {
                    b.st.apply1(&m_rot(*p, *th), &[], *q);
                    next.push(b);
                }
                D::M(q, k) => split(b, *q, Some(*k), false, &mut next),
                D::MReset(q, k) => split(b, *q, Some(*k), true, &mut next),
                D::Reset(q) => split(b, *q, None, true, &mut next),
                D::If(k, x, y) => {
                    let taken = b.res.get(k).copied().unwrap_or(false);
                    next.extend(d_eval(if taken { x } else { y }, vec![b]));
                }
                D::Draw(lo, hi) => {
                    let n = (hi - lo + 1) as f64;
                    for v in *lo..=*hi {
                        next.push(Branch { p: b.p / n, st: b.st.clone(), res: b.res.clone(), key: format!("{}{v},", b.key) });
                    }
                }
                D::Rec(k) => {
                    let v = u8::from(b.res.get(k).copied().unwrap_or(false));
                    b.key += &format!("{v},");
                    next.push(b);
                }
            }
        }
        bs = next;
    }
    bs
}

fn d_emit(ops: &[D], o: &mut String, n: &mut usize, dynamic: bool) {
    // static or dynamic qubits; results are static
    let qn = |q: &usize| if dynamic { format!("ptr %q{q}") } else { format!("ptr inttoptr (i64 {q} to ptr)") };
    for op in ops {
        *n += 1;
        let k = *n;
        match op {
            D::G(g, q) => {
                let name = ["h__body", "x__body", "y__body", "z__body", "s__body", "t__body", "sx__body", "s__adj"][*g as usize];
                o.push_str(&format!("  call void @__quantum__qis__{name}({})\n", qn(q)));
            }
            D::Cx(a, t) => o.push_str(&format!("  call void @__quantum__qis__cx__body({}, {})\n", qn(a), qn(t))),
            D::Cz(a, t) => o.push_str(&format!("  call void @__quantum__qis__cz__body({}, {})\n", qn(a), qn(t))),
            D::Rot(p, th, q) => {
                let name = match p {
                    P::X => "rx",
                    P::Y => "ry",
                    _ => "rz",
                };
                o.push_str(&format!("  call void @__quantum__qis__{name}__body(double 0x{:016X}, {})\n", th.to_bits(), qn(q)));
            }
            D::M(q, r) => o.push_str(&format!("  call void @__quantum__qis__mz__body({}, ptr inttoptr (i64 {r} to ptr))\n", qn(q))),
            D::MReset(q, r) => o.push_str(&format!("  call void @__quantum__qis__mresetz__body({}, ptr inttoptr (i64 {r} to ptr))\n", qn(q))),
            D::Reset(q) => o.push_str(&format!("  call void @__quantum__qis__reset__body({})\n", qn(q))),
            D::If(r, a, b) => {
                o.push_str(&format!(
                    "  %b{k} = call i1 @__quantum__qis__read_result__body(ptr inttoptr (i64 {r} to ptr))\n  br i1 %b{k}, label %t{k}, label %e{k}\nt{k}:\n"
                ));
                d_emit(a, o, n, dynamic);
                o.push_str(&format!("  br label %j{k}\ne{k}:\n"));
                d_emit(b, o, n, dynamic);
                o.push_str(&format!("  br label %j{k}\nj{k}:\n"));
            }
            D::Draw(lo, hi) => o.push_str(&format!(
                "  %d{k} = call i64 @__quantum__qis__drawrandomint__body(i64 {lo}, i64 {hi})\n  call void @__quantum__rt__int_record_output(i64 %d{k}, ptr null)\n"
            )),
            D::Rec(r) => o.push_str(&format!("  call void @__quantum__rt__result_record_output(ptr inttoptr (i64 {r} to ptr), ptr null)\n")),
        }
    }
}

fn d_module(seed: u64, drawless: bool) -> (String, Vec<(String, f64)>) {
    let (nq, ops) = d_program(seed, drawless);
    let dynamic = seed & 1 == 1;
    let mut b = String::new();
    if dynamic {
        for q in 0..nq {
            b += &format!("  %q{q} = call ptr @__quantum__rt__qubit_allocate()\n");
        }
    }
    let mut n = 0;
    d_emit(&ops, &mut b, &mut n, dynamic);
    if dynamic {
        for q in 0..nq {
            b += &format!("  call void @__quantum__rt__qubit_release(ptr %q{q})\n");
        }
    }
    let mut m = format!("define void @main() #0 {{\nentry:\n{b}  ret void\n}}\n");
    for g in ["h__body", "x__body", "y__body", "z__body", "s__body", "t__body", "sx__body", "s__adj", "reset__body"] {
        m += &format!("declare void @__quantum__qis__{g}(ptr)\n");
    }
    for g in ["cx", "cz", "mz", "mresetz"] {
        m += &format!("declare void @__quantum__qis__{g}__body(ptr, ptr)\n");
    }
    for g in ["rx", "ry", "rz"] {
        m += &format!("declare void @__quantum__qis__{g}__body(double, ptr)\n");
    }
    m += "declare i1 @__quantum__qis__read_result__body(ptr)\ndeclare i64 @__quantum__qis__drawrandomint__body(i64, i64)\n\
          declare void @__quantum__rt__int_record_output(i64, ptr)\ndeclare void @__quantum__rt__result_record_output(ptr, ptr)\n\
          declare ptr @__quantum__rt__qubit_allocate()\ndeclare void @__quantum__rt__qubit_release(ptr)\nattributes #0 = { \"entry_point\" }\n";
    let mut dist: BTreeMap<String, f64> = BTreeMap::new();
    for b in d_eval(&ops, vec![Branch { p: 1.0, st: RefState::default(), res: BTreeMap::new(), key: String::new() }]) {
        *dist.entry(b.key).or_default() += b.p;
    }
    (m, dist.into_iter().collect())
}

/// the recorded values of every block
fn shots_of(out: &[u8]) -> Result<Vec<String>, String> {
    let text = std::str::from_utf8(out).map_err(|e| e.to_string())?;
    let mut v = vec![];
    let mut cur: Option<String> = None;
    for l in text.lines() {
        match (l, &mut cur) {
            ("START", None) => cur = Some(String::new()),
            ("END\t0", Some(c)) => {
                v.push(std::mem::take(c));
                cur = None;
            }
            (l, Some(_)) if l.starts_with("METADATA\t") => {}
            (l, Some(c)) if l.starts_with("OUTPUT\t") => {
                *c += l.split('\t').nth(2).unwrap_or("?");
                c.push(',');
            }
            _ => return Err(format!("unexpected line {l:?}")),
        }
    }
    if cur.is_some() {
        return Err("unfinished block".into());
    }
    Ok(v)
}

/// Frequencies of the recorded values, and of successive pairs of shots, against the exact distribution.
fn dist_judge(shots: &[String], dist: &[(String, f64)], how: &str, pairs: bool) -> Result<(f64, usize), String> {
    let ix: BTreeMap<&str, usize> = dist.iter().enumerate().map(|(i, (k, _))| (k.as_str(), i)).collect();
    let mut obs = vec![0u64; dist.len()];
    let mut seq = vec![];
    for s in shots {
        match ix.get(s.as_str()) {
            Some(i) => {
                obs[*i] += 1;
                seq.push(*i);
            }
            None => return Err(format!("{how}: outcome {s} is impossible")),
        }
    }
    let e: Vec<f64> = dist.iter().map(|(_, p)| *p).collect();
    let (p, cells) = stats::gof(&obs, &e);
    if p < stats::ALPHA {
        let worst: Vec<String> = dist.iter().zip(&obs).take(12).map(|((k, p), o)| format!("{k} {o}/{:.1}", p * shots.len() as f64)).collect();
        return Err(format!("{how}: outcomes over {} runs do not follow the distribution, p = {p:.1e}: {}", shots.len(), worst.join(" ")));
    }
    let mut minp = p;
    if pairs && dist.len() <= 16 {
        let k = dist.len();
        for lag in [1usize, 2] {
            let mut o2 = vec![0u64; k * k];
            for w in seq.chunks_exact(2 * lag) {
                o2[w[0] * k + w[lag]] += 1;
            }
            let e2: Vec<f64> = (0..k * k).map(|i| e[i / k] * e[i % k]).collect();
            let (p, _) = stats::gof(&o2, &e2);
            if p < stats::ALPHA {
                return Err(format!("{how}: outcomes of shots {lag} apart depend on each other, p = {p:.1e}"));
            }
            minp = minp.min(p);
        }
    }
    Ok((minp, cells))
}

fn dist_case(seed: u64, shots: u32) -> Result<(f64, usize, String), String> {
    let (ir, dist) = d_module(seed, false);
    let out = run_text(&ir, None, shots, seed).map_err(|e| format!("program not run: {e}"))?;
    let v = shots_of(&out)?;
    if v.len() != shots as usize {
        return Err(format!("{} blocks for {shots} shots", v.len()));
    }
    let (p, c) = dist_judge(&v, &dist, "over shots", true)?;
    Ok((p, c, ir))
}

fn seeds_case(seed: u64, n: u64) -> Result<(f64, usize), String> {
    let (ir, dist) = d_module(seed, false);
    let mut v = vec![];
    // neighbouring seeds: the hard case for a seeding procedure
    for k in 0..n {
        let out = run_text(&ir, None, 1, (seed & 0xffff) + k).map_err(|e| format!("program not run: {e}"))?;
        v.extend(shots_of(&out)?);
    }
    dist_judge(&v, &dist, "over seeds", true)
}

/// Same seed, same output: again, after other work, in another thread, in another process; prefixes for fewer shots.
fn repro_case(sg: &Sigs, seed: u64, work: &Path, resources: &[PathBuf]) -> Result<(u64, u64), String> {
    let mut r = Rng::new(seed ^ 0x26);
    let shots = 1 + r.below(12) as u32;
    let res = r.chance(0.1) && !resources.is_empty();
    let data: Vec<u8> = if res {
        std::fs::read(r.pick(resources)).map_err(|e| e.to_string())?
    } else if r.bool() {
        d_module(seed, true).0.into_bytes()
    } else {
        link_program(sg, seed, None).1.into_bytes()
    };
    let entry: Option<&str> = None;
    let rs = if r.chance(0.2) { r.below(3) as u64 } else { r.u64() };
    let go = |n: u32| lib(|w| runner::run_bytes(&data, entry, n, Some(rs), w));
    let a = match go(shots) {
        Ok(a) => a,
        // resources that are not to be run
        Err(_) if res => return Ok((0, 0)),
        Err(e) => return Err(format!("program not run: {e}")),
    };
    let mut n = 0;
    let mut cmp = |b: Result<Vec<u8>, String>, how: &str| -> Result<(), String> {
        n += 1;
        match b {
            Ok(b) if b == a => Ok(()),
            Ok(b) => Err(format!("{how}: output differs from the first run's: {}", first_diff(&b, &a))),
            Err(e) => Err(format!("{how}: {e}")),
        }
    };
    cmp(go(shots), "again")?;
    for _ in 0..1 + r.below(3) {
        let (_, other) = link_program(sg, r.u64() >> 1, None);
        let rs2 = if r.bool() { Some(r.u64()) } else { None };
        let k = r.below(3) as u32;
        let _ = lib(|w| runner::run_bytes(other.as_bytes(), None, k, rs2, w));
    }
    cmp(go(shots), "after other programs")?;
    if r.chance(0.5) {
        let d = data.clone();
        let b = std::thread::spawn(move || lib(|w| runner::run_bytes(&d, None, shots, Some(rs), w))).join().map_err(|_| "thread died")?;
        cmp(b, "in another thread")?;
    }
    // fewer shots: a prefix made of whole blocks
    let k = r.below(shots as usize + 1) as u32;
    let b = go(k)?;
    let want: usize = if k == 0 {
        0
    } else {
        let mut at = 0;
        for _ in 0..k {
            let nl = a[at..].windows(7).position(|w| w == b"\nEND\t0\n").ok_or("block without end")?;
            at += nl + 7;
        }
        at
    };
    if b != a[..want] {
        return Err(format!("a run of {k} shots is not the beginning of a run of {shots}: {}", first_diff(&b, &a[..want.min(a.len())])));
    }
    let mut procs = 0;
    if r.chance(0.15) {
        let (s, q) = (shots.to_string(), rs.to_string());
        let f = dir(work).join("p.ll");
        let c = if r.bool() || data.starts_with(b"BC") {
            cli(&["-s", &s, "-r", &q], Some(&data))
        } else {
            std::fs::write(&f, &data).map_err(|e| e.to_string())?;
            let c = cli(&["--file", &f.display().to_string(), "--shots", &s, "--rngseed", &q], None);
            let _ = std::fs::remove_file(&f);
            c
        };
        procs += 1;
        cmp(if c.ok { Ok(c.out) } else { Err(format!("exit code {:?}: {}", c.code, clip(&c.err, 400))) }, "in another process")?;
    }
    Ok((n + 1, procs))
}

pub fn c26(cx: &mut Ctx) {
    let sg = Sigs::new();
    let work = cx.work.clone();
    let dir = std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into());
    let resources: Vec<PathBuf> = ["bv.bc", "cji.bc", "random-bit.bc", "teleportation.ll", "full-qir.bc"]
        .iter()
        .map(|f| PathBuf::from(&dir).join("runner/tests/resources").join(f))
        .filter(|p| p.exists())
        .collect();
    let mut r = cx.rng(1);
    for _ in 0..cx.cases(1200) {
        if cx.time_up() || cx.elapsed_frac() > 0.4 {
            break;
        }
        let seed = r.u64() >> 1;
        let body = format!("{seed}\n");
        cx.journal("runner-repro", &body);
        match repro_case(&sg, seed, &work, &resources) {
            Ok((n, p)) => {
                cx.n("outputs_compared", n);
                cx.n("processes_compared", p);
                cx.n("programs_repeated", 1);
                cx.seen_text(&body);
            }
            Err(e) => cx.violation("runner-repro", &body, &e),
        }
    }
    let shots = if cx.thorough { 40_000 } else { 6_000 };
    for i in 0..cx.cases(240) {
        if cx.time_up() {
            break;
        }
        let seed = r.u64() >> 1;
        if i % 16 == 7 {
            let n = if cx.thorough { 6000 } else { 1500 };
            let body = format!("{seed} {n}\n");
            cx.journal("runner-seeds", &body);
            match seeds_case(seed, n) {
                Ok((p, _)) => {
                    cx.n("seeds_judged", n);
                    cx.max("-log10 p over seeds", -p.max(1e-300).log10());
                }
                Err(e) => cx.violation("runner-seeds", &body, &e),
            }
            continue;
        }
        let body = format!("{seed} {shots}\n");
        cx.journal("runner-dist", &body);
        match dist_case(seed, shots) {
            Ok((p, cells, ir)) => {
                cx.n("shots_judged", u64::from(shots));
                cx.n("distributions_judged", 1);
                cx.max("outcome cells", cells as f64);
                cx.max("-log10 p over shots", -p.max(1e-300).log10());
                cx.seen_text(&ir);
                if cx.samples.len() < 2 {
                    cx.sample(ir);
                }
            }
            Err(e) => cx.violation("runner-dist", &body, &e),
        }
    }
}

// ---------------------------------------------------------------- replay

pub fn replay(kind: &str, body: &str, work: &Path) -> Option<Option<String>> {
    let sg = Sigs::new();
    let v: Vec<u64> = body.split_whitespace().map_while(|x| x.parse().ok()).collect();
    Some(match kind {
        "runner-decl" => decl_case(body).err(),
        "runner-link" => {
            let keep: Vec<usize> = v[1..].iter().map(|x| *x as usize).collect();
            let all = body.lines().next().is_some_and(|l| l.split_whitespace().count() == 1);
            link_case(&sg, v[0], if all && keep.is_empty() { None } else { Some(&keep) }).err()
        }
        "runner-frame" => frame_case(&sg, v[0], work).err(),
        "runner-refuse" => refuse_case(&sg, v[0], work).err(),
        "runner-repro" => {
            let dir = std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into());
            let res: Vec<PathBuf> = ["bv.bc", "cji.bc", "random-bit.bc", "teleportation.ll", "full-qir.bc"]
                .iter()
                .map(|f| PathBuf::from(&dir).join("runner/tests/resources").join(f))
                .collect();
            repro_case(&sg, v[0], work, &res).err()
        }
        "runner-dist" => dist_case(v[0], v[1] as u32).err(),
        "runner-seeds" => seeds_case(v[0], v[1]).err(),
        _ => return None,
    })
}

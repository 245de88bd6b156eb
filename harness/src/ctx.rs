//! Run context: arguments, coverage counters, journal of the case being executed, violations.
use crate::rng::Rng;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::path::PathBuf;
use std::time::{Duration, Instant};

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub shard: usize,
    pub shards: usize,
    pub flavour: String,
    pub work: PathBuf,
    pub start: Instant,
    pub soft: Duration,
    pub counters: BTreeMap<String, u64>,
    pub maxes: BTreeMap<String, f64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub viols: Vec<(PathBuf, String)>,
    pub scale: f64,
    pub max_viols: usize,
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{} ...", &s[..e])
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r")
}

impl Ctx {
    pub fn rng(&self, stream: u64) -> Rng {
        Rng::derive(self.seed ^ crate::lockstep::hash_text(&self.prop), stream * 4096 + self.shard as u64)
    }
    pub fn n(&mut self, name: &str, v: u64) {
        *self.counters.entry(name.to_string()).or_default() += v;
    }
    pub fn max(&mut self, name: &str, v: f64) {
        let e = self.maxes.entry(name.to_string()).or_insert(f64::NEG_INFINITY);
        if v > *e {
            *e = v;
        }
    }
    pub fn seen(&mut self, h: u64) {
        if self.distinct.len() < 400_000 {
            self.distinct.insert(h);
        }
    }
    pub fn seen_text(&mut self, s: &str) {
        let h = crate::lockstep::hash_text(s);
        self.seen(h);
    }
    pub fn sample(&mut self, s: impl Into<String>) {
        if self.samples.len() < 6 {
            self.samples.push(clip(&s.into(), 600));
        }
    }
    pub fn time_up(&self) -> bool {
        self.start.elapsed() > self.soft || self.viols.len() >= self.max_viols
    }
    pub fn elapsed_frac(&self) -> f64 {
        self.start.elapsed().as_secs_f64() / self.soft.as_secs_f64()
    }
    /// number of cases for this shard
    pub fn cases(&self, quick_total: usize) -> usize {
        let t = quick_total as f64 * self.scale * if self.thorough { 12.0 } else { 1.0 };
        ((t / self.shards as f64).ceil() as usize).max(1)
    }
    fn journal_path(&self) -> PathBuf {
        self.work.join(format!("journal.{}.{}", self.flavour, self.shard))
    }
    /// Names the case about to run, so that an abort or hang can be attributed and replayed.
    pub fn journal(&self, kind: &str, body: &str) {
        if cfg!(miri) {
            return;
        }
        let _ = std::fs::write(self.journal_path(), format!("#property {}\n#kind {kind}\n{body}", self.prop));
    }
    pub fn journal_clear(&self) {
        if cfg!(miri) {
            return;
        }
        let _ = std::fs::remove_file(self.journal_path());
    }
    pub fn violation(&mut self, kind: &str, body: &str, msg: &str) {
        let p = self.work.join(format!("viol.{}.{}.{}.replay", self.flavour, self.shard, self.viols.len()));
        if cfg!(miri) {
            eprintln!("VIOLATION-IN-MIRI {msg}");
        } else {
            let m: String = msg.lines().map(|l| format!("#message {l}\n")).collect();
            let _ = std::fs::write(&p, format!("#property {}\n#kind {kind}\n{m}{body}", self.prop));
        }
        eprintln!("[{} shard {}] violation: {}", self.prop, self.shard, clip(msg, 1500));
        self.viols.push((p, msg.to_string()));
    }
    pub fn finish(&self, out: &PathBuf) {
        let mut s = String::new();
        for (k, v) in &self.counters {
            s.push_str(&format!("counter\t{k}\t{v}\n"));
        }
        for (k, v) in &self.maxes {
            s.push_str(&format!("max\t{k}\t{v}\n"));
        }
        for v in &self.samples {
            s.push_str(&format!("sample\t{}\n", esc(v)));
        }
        for (p, m) in &self.viols {
            s.push_str(&format!("viol\t{}\t{}\n", p.display(), esc(&clip(m, 2000))));
        }
        s.push_str("done\n");
        let mut f = std::fs::File::create(out.with_extension("hashes")).unwrap();
        let mut buf = Vec::with_capacity(self.distinct.len() * 8);
        for h in &self.distinct {
            buf.extend_from_slice(&h.to_le_bytes());
        }
        f.write_all(&buf).unwrap();
        std::fs::write(out, s).unwrap();
        self.journal_clear();
    }
}

thread_local! {
    pub static CATCHING: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

/// Runs a closure, turning a panic into its message.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    CATCHING.with(|c| c.set(c.get() + 1));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    CATCHING.with(|c| c.set(c.get() - 1));
    r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}

/// Delta debugging over a list.
pub fn ddmin<T: Clone>(input: &[T], budget: Duration, mut fails: impl FnMut(&[T]) -> bool) -> Vec<T> {
    let t0 = Instant::now();
    let mut cur = input.to_vec();
    let mut n = 2usize;
    while cur.len() >= 2 && t0.elapsed() < budget {
        let chunk = cur.len().div_ceil(n);
        let mut reduced = false;
        let mut i = 0;
        while i < cur.len() && t0.elapsed() < budget {
            let mut cand = cur.clone();
            let e = (i + chunk).min(cand.len());
            cand.drain(i..e);
            if fails(&cand) {
                cur = cand;
                reduced = true;
            } else {
                i += chunk;
            }
        }
        if !reduced {
            if chunk == 1 {
                break;
            }
            n = (n * 2).min(cur.len());
        } else {
            n = n.saturating_sub(1).max(2);
        }
    }
    cur
}

//! Exploration engine: exhaustive parallel enumeration, bookkeeping, replay files, evidence.
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Bitmap of the hashes of all reached states: counts distinct ones (hash collisions make the count a lower bound).
struct Seen {
    bits: Vec<AtomicU64>,
    log2: u32,
}
impl Seen {
    fn new(log2: u32) -> Self {
        // zeroed lazily by the allocator
        let v = vec![0u64; 1 << (log2 - 6)];
        let mut v = std::mem::ManuallyDrop::new(v);
        // SAFETY: AtomicU64 has the size, alignment and bit validity of u64
        let bits = unsafe { Vec::from_raw_parts(v.as_mut_ptr().cast::<AtomicU64>(), v.len(), v.capacity()) };
        Seen { bits, log2 }
    }
    #[inline]
    fn insert(&self, h: u64) -> bool {
        let k = h >> (64 - self.log2);
        let (cell, bit) = (&self.bits[(k >> 6) as usize], 1u64 << (k & 63));
        cell.load(Relaxed) & bit == 0 && cell.fetch_or(bit, Relaxed) & bit == 0
    }
}

pub fn mix(h: u64, x: u64) -> u64 {
    let mut z = (h ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    z ^= z >> 29;
    z = z.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z ^ (z >> 32)
}

pub struct Viol {
    pub sweep: String,
    pub what: String,
    pub case: String,
}

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    start: Instant,
    seen: Seen,
    states: AtomicU64,
    transitions: AtomicU64,
    checks: AtomicU64,
    traces: AtomicU64,
    samples: Mutex<Vec<String>>,
    sweeps: Mutex<Vec<String>>,
    viols: Mutex<Vec<Viol>>,
    nviol: AtomicU64,
    stop: AtomicBool,
    known: Mutex<BTreeMap<String, (u64, String)>>,
    pub known_listed: Vec<String>,
    pub assumptions: Mutex<Vec<String>>,
}

/// Worker-local view of the exploration.
pub struct W<'a> {
    pub ctx: &'a Ctx,
    pub sweep: &'a str,
    states: u64,
    transitions: u64,
    checks: u64,
    traces: u64,
    trace: bool,
    last: String,
    sampled: bool,
}

impl<'a> W<'a> {
    fn new(ctx: &'a Ctx, sweep: &'a str) -> Self {
        W { ctx, sweep, states: 0, transitions: 0, checks: 0, traces: 0, trace: false, last: String::new(), sampled: false }
    }
    /// Remember the current case (only evaluated when re-running an item that panicked).
    #[inline]
    pub fn at<F: FnOnce() -> String>(&mut self, f: F) {
        if self.trace {
            self.last = f();
        }
    }
    /// `n` library calls (transitions of the real code) were made.
    #[inline]
    pub fn t(&mut self, n: u64) {
        self.transitions += n;
    }
    /// One complete operation sequence (input, history, call sequence) was compared with its oracle.
    #[inline]
    pub fn trace_done(&mut self) {
        self.traces += 1;
    }
    /// A state reached by the real code.
    #[inline]
    pub fn state(&mut self, tag: u64, v: &[f64]) {
        let mut h = mix(0x1234_5678, tag);
        for x in v {
            h = mix(h, x.to_bits());
        }
        self.states += u64::from(self.ctx.seen.insert(mix(h, 77)));
    }
    pub fn fail<F: FnOnce() -> String>(&mut self, what: &str, case: F) {
        let case = case();
        self.ctx.violation(self.sweep, what, case);
    }
    #[inline]
    pub fn ok<F: FnOnce() -> String>(&mut self, cond: bool, what: &str, case: F) -> bool {
        self.checks += 1;
        if !cond {
            self.fail(what, case);
        }
        cond
    }
    /// Counts a check whose failure is reported later.
    #[inline]
    pub fn holds(&mut self, cond: bool) -> bool {
        self.checks += 1;
        cond
    }
    /// |got - exp| <= tol * max(1, |exp|), NaN fails, equal infinities pass.
    #[inline]
    pub fn close<F: FnOnce() -> String>(&mut self, got: f64, exp: f64, tol: f64, what: &str, case: F) -> bool {
        self.checks += 1;
        let good = near(got, exp, tol);
        if !good {
            let c = case();
            self.ctx.violation(self.sweep, what, format!("{c}: got {got:?}, expected {exp:?}"));
        }
        good
    }
    #[inline]
    pub fn close_all<F: FnOnce() -> String>(&mut self, got: &[f64], exp: &[f64], tol: f64, what: &str, case: F) -> bool {
        self.checks += 1;
        let good = got.len() == exp.len() && got.iter().zip(exp).all(|(a, b)| near(*a, *b, tol));
        if !good {
            let c = case();
            self.ctx.violation(self.sweep, what, format!("{c}: got {got:?}, expected {exp:?}"));
        }
        good
    }
    pub fn sample<F: FnOnce() -> String>(&mut self, f: F) {
        if !self.sampled {
            self.sampled = true;
            let mut s = self.ctx.samples.lock().unwrap();
            if s.len() < 40 && s.iter().filter(|x| x.starts_with(self.sweep)).count() < 2 {
                s.push(format!("{}: {}", self.sweep, f()));
            }
        }
    }
    /// A known finding occurred (must be listed in known_findings.txt, otherwise it is a violation).
    pub fn known<F: FnOnce() -> String>(&mut self, key: &str, what: &str, case: F) {
        if self.ctx.known_listed.iter().any(|k| k == key) {
            let mut k = self.ctx.known.lock().unwrap();
            let e = k.entry(key.to_string()).or_insert_with(|| (0, case()));
            e.0 += 1;
        } else {
            self.fail(what, case);
        }
    }
}

#[inline]
pub fn near(got: f64, exp: f64, tol: f64) -> bool {
    got == exp || (got - exp).abs() <= tol * exp.abs().max(1.0)
}

pub fn fin(v: &[f64]) -> bool {
    v.iter().all(|x| x.is_finite())
}

impl Ctx {
    pub fn new(id: &str, thorough: bool, known_listed: Vec<String>) -> Self {
        Ctx {
            id: id.into(), thorough, start: Instant::now(), seen: Seen::new(if thorough { 33 } else { 31 }), states: AtomicU64::new(0), transitions: AtomicU64::new(0),
            checks: AtomicU64::new(0), traces: AtomicU64::new(0), samples: Mutex::default(), sweeps: Mutex::default(), viols: Mutex::default(),
            nviol: AtomicU64::new(0), stop: AtomicBool::new(false), known: Mutex::default(), known_listed, assumptions: Mutex::default(),
        }
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    pub fn violation(&self, sweep: &str, what: &str, case: String) {
        let n = self.nviol.fetch_add(1, SeqCst);
        if n < 25 {
            self.viols.lock().unwrap().push(Viol { sweep: sweep.into(), what: what.into(), case });
        }
        if n >= 200 {
            self.stop.store(true, SeqCst);
        }
    }
    pub fn lvl<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough { thorough } else { quick }
    }

    /// Enumerates every item of `items` (in parallel, complete: no sampling, no cut-off except after >200 violations).
    pub fn sweep<T: Sync + std::fmt::Debug, F>(&self, name: &str, items: &[T], f: F)
    where
        F: Fn(&mut W, &T) + Sync,
    {
        if self.stop.load(SeqCst) {
            return;
        }
        let t0 = Instant::now();
        let n = items.len();
        let next = AtomicUsize::new(0);
        let threads = std::thread::available_parallelism().map_or(4, |x| x.get()).min(8).min(n.max(1));
        let cur: Vec<AtomicUsize> = (0..threads).map(|_| AtomicUsize::new(usize::MAX)).collect();
        let since: Vec<Mutex<Instant>> = (0..threads).map(|_| Mutex::new(Instant::now())).collect();
        let done = AtomicBool::new(false);
        let slowest = AtomicU64::new(0);
        let (tr0, ck0, tc0) = (self.transitions.load(SeqCst), self.checks.load(SeqCst), self.traces.load(SeqCst));
        std::thread::scope(|s| {
            let hs: Vec<_> = (0..threads)
                .map(|k| {
                    let (next, f, cur, since, slowest) = (&next, &f, &cur, &since, &slowest);
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s, move || {
                            let mut w = W::new(self, name);
                            loop {
                                let i = next.fetch_add(1, SeqCst);
                                if i >= n || self.stop.load(Relaxed) {
                                    break;
                                }
                                *since[k].lock().unwrap() = Instant::now();
                                cur[k].store(i, SeqCst);
                                let t1 = Instant::now();
                                if let Err(e) = catch_unwind(AssertUnwindSafe(|| f(&mut w, &items[i]))) {
                                    let msg = panic_msg(&e);
                                    if let Some(h) = msg.strip_prefix("HARNESS") {
                                        eprintln!("harness error{h} in {name}, item {:?}", items[i]);
                                        std::process::exit(3);
                                    }
                                    w.trace = true;
                                    w.last.clear();
                                    let _ = catch_unwind(AssertUnwindSafe(|| f(&mut w, &items[i])));
                                    w.trace = false;
                                    let last = std::mem::take(&mut w.last);
                                    let it: String = format!("{:?}", items[i]).chars().take(600).collect();
                                    self.violation(name, "a call panicked", format!("{last} [item {it}]: {msg}"));
                                }
                                slowest.fetch_max(t1.elapsed().as_millis() as u64, Relaxed);
                            }
                            cur[k].store(usize::MAX, SeqCst);
                            self.transitions.fetch_add(w.transitions, SeqCst);
                            self.checks.fetch_add(w.checks, SeqCst);
                            self.traces.fetch_add(w.traces, SeqCst);
                            self.states.fetch_add(w.states, SeqCst);
                        })
                        .unwrap()
                })
                .collect();
            // Watchdog: a single item takes milliseconds; minutes without progress means a call does not terminate.
            let (done_r, cur_r, since_r) = (&done, &cur, &since);
            s.spawn(move || {
                let limit = Duration::from_secs(if self.thorough { 400 } else { 150 });
                while !done_r.load(SeqCst) {
                    std::thread::sleep(Duration::from_millis(20));
                    for k in 0..threads {
                        let i = cur_r[k].load(SeqCst);
                        if i != usize::MAX && i < n && since_r[k].lock().unwrap().elapsed() > limit {
                            let it: String = format!("{:?}", items[i]).chars().take(2000).collect();
                            self.violation(name, "a call does not terminate", format!("item {i}: {it}"));
                            std::process::exit(self.finish());
                        }
                    }
                }
            });
            for h in hs {
                h.join().unwrap();
            }
            done.store(true, SeqCst);
        });
        self.sweeps.lock().unwrap().push(format!(
            "{name}: {n} items, {} library calls, {} oracle checks, {} traces, {:.1}s (slowest item {:.1}s)",
            self.transitions.load(SeqCst) - tr0, self.checks.load(SeqCst) - ck0, self.traces.load(SeqCst) - tc0, t0.elapsed().as_secs_f64(), slowest.load(SeqCst) as f64 / 1e3
        ));
    }

    pub fn finish(&self) -> i32 {
        let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
        let tier = if self.thorough { "thorough" } else { "quick" };
        let nv = self.nviol.load(SeqCst);
        let viols = self.viols.lock().unwrap();
        let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let states = self.states.load(SeqCst);
        let known = self.known.lock().unwrap();
        let mut assumptions = self.assumptions.lock().unwrap().clone();
        assumptions.push("f64 values outside the enumerated alphabets are not covered; the exploration is exhaustive within the alphabets and bounds listed under sweeps".into());
        let ev = serde_json::json!({
            "property": self.id, "tier": tier, "seed": seed, "level": "model_checking",
            "coverage": {
                "states": states,
                "transitions": self.transitions.load(SeqCst),
                "traces_validated_against_impl": self.traces.load(SeqCst),
                "oracle_checks": self.checks.load(SeqCst),
                "exhaustive": !self.stop.load(SeqCst),
                "sweeps": &*self.sweeps.lock().unwrap(),
                "samples": &*self.samples.lock().unwrap(),
                "known_findings_hit": known.iter().map(|(k, v)| format!("{k}: {} cases", v.0)).collect::<Vec<_>>(),
                "explored_directly_on": "the real code in /repo (states: distinct results reached; transitions: library calls; traces: complete inputs/histories compared with their oracle)",
            },
            "assumptions": assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": nv,
        });
        let _ = std::fs::create_dir_all(format!("{root}/evidence"));
        let path = format!("{root}/evidence/{}.json", self.id);
        if std::fs::write(&path, serde_json::to_string_pretty(&ev).unwrap() + "\n").is_err() {
            eprintln!("cannot write {path}");
            return 3;
        }
        for s in self.sweeps.lock().unwrap().iter() {
            println!("  {s}");
        }
        for (k, (n, case)) in known.iter() {
            println!("KNOWN-FINDING: property={} {k} ({n} cases, e.g. {case})", self.id);
        }
        println!("{} {tier}: states={states} transitions={} traces={} checks={} violations={nv} wall={:.1}s", self.id,
            self.transitions.load(SeqCst), self.traces.load(SeqCst), self.checks.load(SeqCst), self.start.elapsed().as_secs_f64());
        let rp = format!("{root}/evidence/{}.replay.json", self.id);
        let _ = std::fs::remove_file(&rp);
        if nv > 0 {
            let list: Vec<_> = viols.iter().map(|v| serde_json::json!({"sweep": v.sweep, "what": v.what, "case": v.case})).collect();
            let doc = serde_json::json!({
                "property": self.id, "tier": tier,
                "replay": format!("cd /verif && ./check.sh {} {tier}   # the exploration is deterministic; the first case below is the first counterexample found", self.id),
                "violations": list, "total": nv});
            let _ = std::fs::write(&rp, serde_json::to_string_pretty(&doc).unwrap() + "\n");
            for v in viols.iter().take(5) {
                let c: String = v.case.chars().take(900).collect();
                println!("  [{}] {} -- {c}", v.sweep, v.what);
            }
            println!("VIOLATION property={} replay={rp}", self.id);
            return 1;
        }
        if states < 2 || self.checks.load(SeqCst) == 0 || self.traces.load(SeqCst) == 0 || self.transitions.load(SeqCst) == 0 {
            eprintln!("vacuous exploration");
            return 3;
        }
        0
    }
}

fn panic_msg(e: &Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
}

/// All sequences over 0..k of length exactly len, as an iterator of digit vectors.
pub fn seqs(k: usize, len: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for _ in 0..len {
        out = out.into_iter().flat_map(|s: Vec<usize>| (0..k).map(move |d| { let mut t = s.clone(); t.push(d); t })).collect();
    }
    out
}

/// All permutations of 0..n.
pub fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in perms(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out.sort();
    out
}

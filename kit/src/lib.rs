//! Shared machinery of the monitors: random choices, verdicts, evidence, known findings.
//!
//! Verdicts are three-valued. `Run::finish` exits 0 (held on what was observed), 1 with VIOLATION
//! lines (an oracle fired), or 3 (inconclusive: too little was observed, or the harness itself failed).

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub mod alloc;

pub fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}

pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}

/// xoshiro256** seeded by splitmix64.
#[derive(Clone, Debug)]
pub struct Rng {
    s: [u64; 4],
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut z = seed;
        let mut n = || {
            z = z.wrapping_add(0x9E3779B97F4A7C15);
            let mut x = z;
            x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
            x ^ (x >> 31)
        };
        Rng { s: [n(), n(), n(), n()] }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    pub fn u16(&mut self) -> u16 {
        (self.u64() >> 48) as u16
    }
    pub fn u8(&mut self) -> u8 {
        (self.u64() >> 56) as u8
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: usize) -> usize {
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn bool(&mut self) -> bool {
        self.u64() >> 63 == 1
    }
    /// true with probability num/den
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.u64().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
}

pub fn hash64(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for &x in b {
        h ^= x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b.iter().take(600) {
        s.push_str(&format!("{:02x}", x));
    }
    if b.len() > 600 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}

pub fn short(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}..({} chars)", &s[..e], s.len())
}

/// What an oracle reports. `sig` classifies the failure (it is what known findings are keyed on);
/// `detail` holds the witness.
#[derive(Debug, Clone)]
pub struct Violation {
    pub sig: String,
    pub detail: String,
}

pub type Verdict = Result<(), Violation>;

pub fn fail<T>(sig: impl Into<String>, detail: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { sig: sig.into(), detail: detail.into() })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($d:tt)+) => { if !$c { return $crate::fail($sig, format!($($d)+)); } };
}

/// Counters of what a case observed; merged into the run.
#[derive(Default)]
pub struct Obs {
    pub counts: BTreeMap<&'static str, u64>,
    pub hashes: Vec<u64>,
    pub sample: Option<String>,
    pub evals: u64,
}

impl Obs {
    pub fn count(&mut self, k: &'static str) {
        *self.counts.entry(k).or_default() += 1;
    }
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.counts.entry(k).or_default() += n;
    }
    /// one evaluated case, non-trivial and identified by `key`
    pub fn case(&mut self, key: u64) {
        self.evals += 1;
        self.hashes.push(key);
    }
    /// one evaluated case that is trivial by the rule
    pub fn trivial(&mut self) {
        self.evals += 1;
    }
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static CATCHING: Cell<bool> = const { Cell::new(false) };
}

/// Runs `f`; a panic becomes Err((location file:line, message)).
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    let old = CATCHING.with(|c| c.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    CATCHING.with(|c| c.set(old));
    match r {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or(("?".into(), "?".into()))),
    }
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        if CATCHING.with(|c| c.get()) {
            PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
        } else {
            default(info);
        }
    }));
}

/// A panic located in the harness's own sources is an error of the harness, not a verdict.
/// The code under test is compiled from the mirror (an absolute path containing "/ws/") or is a
/// dependency or std (reached from it); the harness's own files appear as relative "src/..." paths.
pub fn panic_in_harness(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/verif/kit/") || loc.starts_with("../kit") || loc.contains("/kit/src/")
}

struct Shared {
    obs: BTreeMap<String, u64>,
    seen: HashSet<u64>,
    evals: u64,
    samples: Vec<String>,
    violations: Vec<(String, String, u64, String)>, // sig, detail, case index, phase
    known_hit: BTreeMap<String, u64>,
    harness_errors: Vec<String>,
}

pub struct Run {
    pub prop: &'static str,
    pub seed: u64,
    pub thorough: bool,
    start: Instant,
    rule: String,
    assumptions: Vec<String>,
    known: Vec<(String, String)>,
    sh: Arc<Mutex<Shared>>,
    minimums: Vec<(String, u64)>,
    only_case: Option<u64>,
    slots: Arc<Vec<Slot>>,
    stop: Arc<AtomicBool>,
    phase: Arc<Mutex<String>>,
}

#[derive(Default)]
struct Slot {
    started_ms: AtomicU64, // 0 = idle
    case: AtomicU64,
    tid: AtomicUsize,
}

impl Run {
    pub fn new(prop: &'static str, rule: &str) -> Run {
        install_panic_hook();
        let mut known = Vec::new();
        if let Ok(t) = std::fs::read_to_string(verif_dir().join("known_findings.txt")) {
            for l in t.lines() {
                // finding: property=C07 sig=<sig> :: <text>
                let Some(r) = l.strip_prefix("finding: property=") else { continue };
                let Some((p, r)) = r.split_once(' ') else { continue };
                if p != prop {
                    continue;
                }
                if let Some((sig, text)) = r.trim().strip_prefix("sig=").and_then(|r| r.split_once(" :: ")) {
                    known.push((sig.trim().to_string(), text.trim().to_string()));
                }
            }
        }
        let only_case = std::env::var("VERIF_CASE").ok().and_then(|s| s.parse().ok());
        Run {
            prop,
            seed: seed(),
            thorough: thorough(),
            start: Instant::now(),
            rule: rule.to_string(),
            assumptions: Vec::new(),
            known,
            sh: Arc::new(Mutex::new(Shared {
                obs: BTreeMap::new(),
                seen: HashSet::new(),
                evals: 0,
                samples: Vec::new(),
                violations: Vec::new(),
                known_hit: BTreeMap::new(),
                harness_errors: Vec::new(),
            })),
            minimums: Vec::new(),
            only_case,
            slots: Arc::new((0..64).map(|_| Slot::default()).collect()),
            stop: Arc::new(AtomicBool::new(false)),
            phase: Arc::new(Mutex::new(String::new())),
        }
    }

    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.into());
    }

    /// The run is inconclusive unless counter `k` reaches `n`.
    pub fn need(&mut self, k: &str, n: u64) {
        self.minimums.push((k.to_string(), n));
    }

    pub fn scale(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    pub fn merge(&self, o: Obs) {
        let mut s = self.sh.lock().unwrap();
        for (k, v) in o.counts {
            *s.obs.entry(k.to_string()).or_default() += v;
        }
        s.evals += o.evals;
        for h in o.hashes {
            if s.seen.len() < 4_000_000 {
                s.seen.insert(h);
            }
        }
        if let Some(x) = o.sample {
            if s.samples.len() < 6 {
                s.samples.push(short(&x, 1500));
            }
        }
    }

    pub fn harness_error(&self, e: String) {
        let mut s = self.sh.lock().unwrap();
        if s.harness_errors.len() < 20 {
            s.harness_errors.push(e);
        }
    }

    pub fn report(&self, case: u64, v: Violation) {
        let mut s = self.sh.lock().unwrap();
        if self.known.iter().any(|(k, _)| *k == v.sig) {
            *s.known_hit.entry(v.sig).or_default() += 1;
            return;
        }
        if s.violations.len() < 200 && s.violations.iter().filter(|x| x.0 == v.sig).count() < 3 {
            let phase = self.phase.lock().unwrap().clone();
            s.violations.push((v.sig, v.detail, case, phase));
        }
        if s.violations.len() > 40 {
            self.stop.store(true, Ordering::SeqCst);
        }
    }

    pub fn violated(&self) -> bool {
        !self.sh.lock().unwrap().violations.is_empty()
    }

    /// Runs cases 0..n (in parallel), each with its own generator derived from (seed, phase, case).
    /// Stops starting new cases after `budget_s` seconds. A panic inside the code under test is a
    /// violation; a synchronous case that burns `hang_s` seconds of CPU is one too.
    pub fn cases<F>(&self, phase: &str, n: usize, budget_s: f64, f: F)
    where
        F: Fn(u64, &mut Rng, &mut Obs) -> Verdict + Sync,
    {
        self.cases_on(phase, n, budget_s, std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4), f)
    }

    pub fn cases_on<F>(&self, phase: &str, n: usize, budget_s: f64, threads: usize, f: F)
    where
        F: Fn(u64, &mut Rng, &mut Obs) -> Verdict + Sync,
    {
        if let Ok(p) = std::env::var("VERIF_PHASE") {
            if p != phase {
                return;
            }
        }
        *self.phase.lock().unwrap() = phase.to_string();
        let next = AtomicU64::new(0);
        let t0 = Instant::now();
        let base = hash64(format!("{}/{}/{}", self.prop, phase, self.seed).as_bytes());
        let done = AtomicBool::new(false);
        let hang_s: f64 = std::env::var("VERIF_HANG_S").ok().and_then(|s| s.parse().ok()).unwrap_or(60.0);
        std::thread::scope(|sc| {
            let live = Arc::new(AtomicUsize::new(threads));
            for t in 0..threads {
                let (next, f, live) = (&next, &f, live.clone());
                let slots = self.slots.clone();
                std::thread::Builder::new()
                    .stack_size(32 << 20)
                    .spawn_scoped(sc, move || {
                        let slot = &slots[t % slots.len()];
                        slot.tid.store(unsafe { libc::pthread_self() } as usize, Ordering::SeqCst);
                        loop {
                            let i = next.fetch_add(1, Ordering::SeqCst);
                            if i >= n as u64
                                || t0.elapsed().as_secs_f64() > budget_s
                                || self.stop.load(Ordering::SeqCst)
                            {
                                break;
                            }
                            if let Some(c) = self.only_case {
                                if c != i {
                                    continue;
                                }
                            }
                            slot.case.store(i, Ordering::SeqCst);
                            slot.started_ms.store(self.start.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                            let mut rng = Rng::new(base.wrapping_add(i.wrapping_mul(0x9E3779B97F4A7C15)));
                            let mut obs = Obs::default();
                            let r = catch(|| f(i, &mut rng, &mut obs));
                            slot.started_ms.store(0, Ordering::SeqCst);
                            self.merge(obs);
                            match r {
                                Ok(Ok(())) => {}
                                Ok(Err(v)) => self.report(i, v),
                                Err((loc, msg)) => {
                                    if panic_in_harness(&loc) {
                                        self.harness_error(format!("case {i} of {phase}: panic at {loc}: {msg}"));
                                    } else {
                                        self.report(
                                            i,
                                            Violation {
                                                sig: format!("panic:{}", strip_loc(&loc)),
                                                detail: format!("panicked at {loc}: {msg}"),
                                            },
                                        )
                                    }
                                }
                            }
                        }
                        live.fetch_sub(1, Ordering::SeqCst);
                    })
                    .unwrap();
            }
            // hang watchdog
            let live2 = live.clone();
            let done = &done;
            sc.spawn(move || {
                let mut base_cpu: Vec<(u64, f64)> = vec![(u64::MAX, 0.0); self.slots.len()];
                while live2.load(Ordering::SeqCst) > 0 && !done.load(Ordering::SeqCst) {
                    std::thread::sleep(Duration::from_millis(20));
                    if resident() > 12 << 30 {
                        // something grows without end: whatever has been running longest
                        let s = self.slots.iter().filter(|s| s.started_ms.load(Ordering::SeqCst) != 0).min_by_key(|s| s.started_ms.load(Ordering::SeqCst));
                        let c = s.map_or(0, |s| s.case.load(Ordering::SeqCst));
                        self.report(c, Violation { sig: "memory".into(), detail: format!("more than 12 GiB in use while case {c} of {} was running", self.phase.lock().unwrap()) });
                        self.finish_and_exit();
                    }
                    let now = self.start.elapsed().as_millis() as u64;
                    for (k, s) in self.slots.iter().enumerate().take(threads) {
                        let st = s.started_ms.load(Ordering::SeqCst);
                        if st == 0 || now.saturating_sub(st) < 1000 {
                            continue;
                        }
                        let Some(cpu) = thread_cpu(s.tid.load(Ordering::SeqCst)) else { continue };
                        if base_cpu[k].0 != st {
                            base_cpu[k] = (st, cpu);
                            continue;
                        }
                        if cpu - base_cpu[k].1 > hang_s {
                            let c = s.case.load(Ordering::SeqCst);
                            self.report(
                                c,
                                Violation {
                                    sig: "hang".into(),
                                    detail: format!("case {c} of {} burned {:.0} s of CPU without finishing", self.phase.lock().unwrap(), cpu - base_cpu[k].1),
                                },
                            );
                            self.finish_and_exit();
                        }
                    }
                }
            });
        });
    }

    /// A deterministic probe of a known finding (or of a repaired defect).
    pub fn probe(&self, f: impl FnOnce(&mut Obs) -> Verdict) {
        let mut o = Obs::default();
        let r = catch(|| f(&mut o));
        self.merge(o);
        match r {
            Ok(Ok(())) => {}
            Ok(Err(v)) => self.report(u64::MAX, v),
            Err((loc, msg)) if panic_in_harness(&loc) => self.harness_error(format!("probe: panic at {loc}: {msg}")),
            Err((loc, msg)) => self.report(
                u64::MAX,
                Violation { sig: format!("panic:{}", strip_loc(&loc)), detail: format!("panicked at {loc}: {msg}") },
            ),
        }
    }

    pub fn finish(self) -> ! {
        self.finish_and_exit()
    }

    fn finish_and_exit(&self) -> ! {
        let s = self.sh.lock().unwrap();
        let wall = self.start.elapsed().as_secs_f64();
        let dir = verif_dir();
        let mut inconclusive = Vec::new();
        if self.only_case.is_none() && std::env::var("VERIF_PHASE").is_err() {
            for (k, n) in &self.minimums {
                let got = if k == "evaluations" { s.evals } else { s.obs.get(k).copied().unwrap_or(0) };
                if got < *n {
                    inconclusive.push(format!("observed only {got} of {k}, needed {n}"));
                }
            }
        }
        let mut lines = Vec::new();
        let mut sigs: Vec<&str> = Vec::new();
        if !s.violations.is_empty() {
            let rd = dir.join("replays");
            let _ = std::fs::create_dir_all(&rd);
            for (i, (sig, detail, case, phase)) in s.violations.iter().enumerate() {
                if sigs.contains(&sig.as_str()) {
                    continue;
                }
                sigs.push(sig);
                let p = rd.join(format!("{}-{}-{}.txt", self.prop, self.seed, i));
                let _ = std::fs::write(
                    &p,
                    format!(
                        "property: {}\nsignature: {}\nseed: {}\ntier: {}\nphase: {}\ncase: {}\nreplay: VERIF_SEED={} VERIF_PHASE=(above) VERIF_CASE={} (same command)\n\n{}\n",
                        self.prop,
                        sig,
                        self.seed,
                        if self.thorough { "thorough" } else { "quick" },
                        phase,
                        case,
                        self.seed,
                        case,
                        detail
                    ),
                );
                lines.push(format!("VIOLATION property={} replay={}", self.prop, p.display()));
                lines.push(format!("  {}: {}", sig, short(detail, 3000)));
                if sigs.len() >= 10 {
                    break;
                }
            }
        }
        let mut cov = serde_json::Map::new();
        cov.insert("evaluations".into(), s.evals.into());
        cov.insert("distinct_nontrivial".into(), (s.seen.len() as u64).into());
        cov.insert("rule".into(), self.rule.clone().into());
        cov.insert("samples".into(), s.samples.clone().into());
        let mut ob = serde_json::Map::new();
        for (k, v) in &s.obs {
            ob.insert(k.clone(), (*v).into());
        }
        cov.insert("observed".into(), ob.into());
        let mut assumptions = self.assumptions.clone();
        for (k, t) in &self.known {
            let hits = s.known_hit.get(k).copied().unwrap_or(0);
            if hits > 0 {
                assumptions.push(format!("known finding {k} ({t}) was observed {hits} times and is not counted as a violation"));
                println!("KNOWN-FINDING: property={} {} [{}; observed {} times]", self.prop, t, k, hits);
            } else {
                println!("note: known finding {k} of {} was not observed in this run", self.prop);
            }
        }
        let ev = serde_json::json!({
            "property": self.prop,
            "tier": if self.thorough { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": "exploration",
            "coverage": cov,
            "assumptions": assumptions,
            "wall_s": (wall * 100.0).round() / 100.0,
            "violations": s.violations.len(),
        });
        let _ = std::fs::create_dir_all(dir.join("evidence"));
        if let Err(e) = std::fs::write(
            dir.join("evidence").join(format!("{}.json", self.prop)),
            serde_json::to_string_pretty(&ev).unwrap() + "\n",
        ) {
            println!("error: cannot write evidence: {e}");
            std::process::exit(3);
        }
        println!(
            "{}: {} evaluations, {} distinct non-trivial, {:.1} s; observed {}",
            self.prop,
            s.evals,
            s.seen.len(),
            wall,
            serde_json::to_string(&s.obs).unwrap()
        );
        for l in &lines {
            println!("{l}");
        }
        for e in &s.harness_errors {
            println!("harness error: {e}");
        }
        for e in &inconclusive {
            println!("inconclusive: {e}");
        }
        use std::io::Write;
        let _ = std::io::stdout().flush();
        let code = if !lines.is_empty() {
            1
        } else if !s.harness_errors.is_empty() || !inconclusive.is_empty() {
            3
        } else {
            0
        };
        unsafe { libc::_exit(code) }
    }
}

fn strip_loc(loc: &str) -> String {
    // keep the path below the mirror, drop the line number (signatures survive unrelated edits)
    let p = loc.rsplit_once(':').map(|x| x.0).unwrap_or(loc);
    p.rsplit_once("/ws/").map(|x| x.1).unwrap_or(p).to_string()
}

/// Resident memory of this process, in bytes.
fn resident() -> u64 {
    std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1)?.parse::<u64>().ok()).unwrap_or(0) * 4096
}

fn thread_cpu(tid: usize) -> Option<f64> {
    unsafe {
        let mut clk: libc::clockid_t = 0;
        if libc::pthread_getcpuclockid(tid as libc::pthread_t, &mut clk) != 0 {
            return None;
        }
        let mut ts: libc::timespec = std::mem::zeroed();
        if libc::clock_gettime(clk, &mut ts) != 0 {
            return None;
        }
        Some(ts.tv_sec as f64 + ts.tv_nsec as f64 / 1e9)
    }
}

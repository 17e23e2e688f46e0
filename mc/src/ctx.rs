//! Check driver: bounds, counters, evidence, verdicts, replay files.

use std::collections::HashSet;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

thread_local! {
    /// Panics since the last one was caught.
    static UNWINDING: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
    /// The case this thread works on.
    static CASE: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
/// Does `par` work inside a destructor while a panic unwinds the thread?
static UNWIND: AtomicBool = AtomicBool::new(false);
/// Checks that expect assertions to fail (or panic on purpose): an assertion may
/// well be skipped during unwinding.
const CALM: [&str; 5] = ["C03", "C09", "C26", "C27", "C28"];
static CTX: OnceLock<&'static Ctx> = OnceLock::new();

pub struct Ctx {
    pub id: &'static str,
    pub thorough: bool,
    seed: u64,
    start: Instant,
    seen: Vec<Mutex<HashSet<u64>>>,
    extra_states: AtomicU64,
    transitions: AtomicU64,
    traces: AtomicU64,
    samples: Mutex<Vec<String>>,
    notes: Mutex<Vec<(String, String)>>,
    known: Vec<(String, String)>,
    known_hit: Mutex<HashSet<usize>>,
    violated: AtomicBool,
    /// Progress marker for the watchdog.
    beat: AtomicU64,
    current: Mutex<String>,
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn verif_dir() -> std::path::PathBuf {
    std::env::var_os("VERIF_DIR").map(Into::into).unwrap_or_else(|| "/verif".into())
}

/// Bytes of memory in use.
fn resident() -> u64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split(' ').nth(1).and_then(|p| p.parse::<u64>().ok()).unwrap_or(0) * 4096
}
const MEMORY: u64 = 22 << 30;

impl Ctx {
    /// Reads the tier from the command line / environment.
    pub fn new(id: &'static str) -> &'static Ctx {
        let tier = std::env::args()
            .nth(1)
            .or_else(|| std::env::var("VERIF_TIER").ok())
            .unwrap_or_else(|| "quick".into());
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
        let mut known = vec![];
        if let Ok(s) = std::fs::read_to_string(verif_dir().join("known-findings.txt")) {
            for l in s.lines() {
                // finding: property=<id> sig=<signature> :: <what fails>
                if let Some(r) = l.strip_prefix(&format!("finding: property={id} sig=")) {
                    let (sig, what) = r.split_once(" :: ").unwrap_or((r, ""));
                    known.push((sig.to_string(), what.to_string()));
                }
            }
        }
        // Expected panics of the code under test must not clutter the output.
        // A panic while another one unwinds ends the process: report it here.
        std::panic::set_hook(Box::new(|info| {
            let depth = UNWINDING.get() + 1;
            UNWINDING.set(depth);
            if depth == 2 {
                let e = format!("case {}: panic during unwinding: {info}", CASE.get());
                unexpected(&e);
            }
        }));
        let c: &'static Ctx = Box::leak(Box::new(Ctx {
            id,
            thorough: tier == "thorough",
            seed,
            start: Instant::now(),
            seen: (0..64).map(|_| Mutex::new(HashSet::new())).collect(),
            extra_states: 0.into(),
            transitions: 0.into(),
            traces: 0.into(),
            samples: Mutex::default(),
            notes: Mutex::default(),
            known,
            known_hit: Mutex::default(),
            violated: false.into(),
            beat: 0.into(),
            current: Mutex::default(),
        }));
        let _ = CTX.set(c);
        UNWIND.store(!cfg!(debug_assertions) && !CALM.contains(&id), Relaxed);
        std::thread::spawn(move || c.watchdog());
        c
    }

    /// A single execution that makes no progress for minutes hangs.
    fn watchdog(&'static self) {
        let mut last = (self.beat.load(Relaxed), Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(100));
            // No quick exploration comes near this on code that holds the property.
            if !self.thorough && resident() > MEMORY {
                let cur = self.current.lock().map(|c| c.clone()).unwrap_or_default();
                self.fail("memory", || {
                    format!("an execution uses more and more memory; working on: {cur}")
                });
            }
            let b = self.beat.load(Relaxed);
            if b != last.0 {
                last = (b, Instant::now());
            } else if last.1.elapsed() > Duration::from_secs(if self.thorough { 900 } else { 150 }) {
                let cur = self.current.lock().map(|c| c.clone()).unwrap_or_default();
                self.fail("no-progress", || {
                    format!("no execution finished for minutes; working on: {cur}")
                });
            }
        }
    }
    pub fn phase(&self, s: &str) {
        *self.current.lock().unwrap() = s.to_string();
        self.beat.fetch_add(1, Relaxed);
        if std::env::var_os("MC_VERBOSE").is_some() {
            eprintln!(
                "[{:7.2}s] {s} (states {}, transitions {}, traces {})",
                self.start.elapsed().as_secs_f64(),
                self.states(),
                self.transitions.load(Relaxed),
                self.traces.load(Relaxed)
            );
        }
    }

    /// quick/thorough bound
    pub fn bound<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    /// Count a state of the explored space, deduplicated by hash.
    pub fn state<H: Hash + ?Sized>(&self, h: &H) {
        let mut s = std::collections::hash_map::DefaultHasher::new();
        h.hash(&mut s);
        let k = s.finish();
        self.seen[(k >> 58) as usize].lock().unwrap().insert(k);
    }
    /// Count states that are distinct by construction of the enumeration.
    pub fn states_by_construction(&self, n: u64) {
        self.extra_states.fetch_add(n, Relaxed);
    }
    /// Count API calls made on the code under test.
    pub fn steps(&self, n: u64) {
        self.transitions.fetch_add(n, Relaxed);
    }
    /// Count complete executions compared with the model.
    pub fn trace(&self) {
        self.traces_n(1)
    }
    pub fn traces_n(&self, n: u64) {
        self.traces.fetch_add(n, Relaxed);
        self.beat.fetch_add(1, Relaxed);
    }
    pub fn sample(&self, f: impl FnOnce() -> String) {
        if let Ok(mut s) = self.samples.try_lock() {
            if s.len() < 8 {
                let t = f();
                s.push(t);
            }
        }
    }
    pub fn want_sample(&self) -> bool {
        self.samples.lock().unwrap().len() < 8
    }
    /// Record a bound or measured quantity in the evidence.
    pub fn note(&self, k: &str, v: impl std::fmt::Display) {
        self.notes.lock().unwrap().push((k.to_string(), v.to_string()));
    }

    fn states(&self) -> u64 {
        self.seen.iter().map(|s| s.lock().unwrap().len() as u64).sum::<u64>()
            + self.extra_states.load(Relaxed)
    }

    /// Report a violation. `sig` identifies the specific failing input or
    /// history; known findings are matched on it exactly.
    pub fn fail(&self, sig: &str, describe: impl FnOnce() -> String) {
        if let Some(i) = self.known.iter().position(|(s, _)| s == sig) {
            self.known_hit.lock().unwrap().insert(i);
            return;
        }
        if self.violated.swap(true, Relaxed) {
            // Another thread is already reporting.
            std::thread::sleep(Duration::from_secs(3600));
        }
        let text = describe();
        let dir = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}.txt", self.id));
        let body = format!(
            "property {}\nsignature {}\ntier {}\nreproduce: bash /verif/check.sh {} {}\n\n{}\n",
            self.id,
            sig,
            if self.thorough { "thorough" } else { "quick" },
            self.id,
            if self.thorough { "thorough" } else { "quick" },
            text
        );
        let _ = std::fs::write(&path, body);
        self.write_evidence(1);
        println!("{}", &text[..text.char_indices().nth(3000).map_or(text.len(), |p| p.0)]);
        println!("VIOLATION property={} replay={}", self.id, path.display());
        std::process::exit(1);
    }

    /// Check a condition.
    pub fn check(&self, ok: bool, sig: &str, describe: impl FnOnce() -> String) {
        if !ok {
            self.fail(sig, describe)
        }
    }

    fn write_evidence(&self, violations: u64) {
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let samples = self.samples.lock().unwrap();
        let notes = self.notes.lock().unwrap();
        let mut j = String::new();
        write!(
            j,
            "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"model_checking\",\n  \"coverage\": {{\n    \"states\": {},\n    \"transitions\": {},\n    \"traces_validated_against_impl\": {},\n    \"exhaustive\": {},\n    \"samples\": [{}],\n    \"bounds\": {{{}}}\n  }},\n",
            json_str(self.id),
            json_str(if self.thorough { "thorough" } else { "quick" }),
            self.seed,
            self.states(),
            self.transitions.load(Relaxed),
            self.traces.load(Relaxed),
            violations == 0,
            samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
            notes
                .iter()
                .map(|(k, v)| format!("{}: {}", json_str(k), json_str(v)))
                .collect::<Vec<_>>()
                .join(", "),
        )
        .unwrap();
        write!(
            j,
            "  \"assumptions\": [\"the independent reader and reference model in /verif/mc/src are correct\", \"single-threaded deterministic code: an execution is determined by its call sequence\"],\n  \"wall_s\": {:.3},\n  \"violations\": {}\n}}\n",
            self.start.elapsed().as_secs_f64(),
            violations
        )
        .unwrap();
        let path = dir.join(format!("{}.json", self.id));
        if std::fs::write(&path, j).is_err() {
            eprintln!("cannot write {}", path.display());
            std::process::exit(2);
        }
    }

    pub fn finish(&self) -> ! {
        let hits = self.known_hit.lock().unwrap().clone();
        for (i, (_, what)) in self.known.iter().enumerate() {
            if hits.contains(&i) {
                println!("KNOWN-FINDING: property={} {}", self.id, what);
            }
        }
        if self.traces.load(Relaxed) == 0 || self.states() < 2 {
            eprintln!("vacuous exploration");
            std::process::exit(2);
        }
        if let Ok(first) = std::env::var("MC_FIRST") {
            self.note("the quick exploration, without debug assertions and overflow checks", first);
        }
        self.write_evidence(0);
        println!(
            "{}: held on everything explored: {} states, {} transitions, {} executions compared, {:.1}s",
            self.id,
            self.states(),
            self.transitions.load(Relaxed),
            self.traces.load(Relaxed),
            self.start.elapsed().as_secs_f64()
        );
        std::process::exit(0);
    }
}

/// Run code under test, turning a panic into an error.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        UNWINDING.set(0);
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        }
    })
}

/// Run `f` inside a destructor, while a panic unwinds the thread.
pub fn unwinding(f: impl FnOnce()) {
    struct D<F: FnOnce()>(Option<F>);
    impl<F: FnOnce()> Drop for D<F> {
        fn drop(&mut self) {
            if let Err(e) = catch(self.0.take().unwrap()) {
                unexpected(&e);
            }
        }
    }
    let _ = catch_unwind(AssertUnwindSafe(|| {
        let _d = D(Some(f));
        std::panic::resume_unwind(Box::new(()));
    }));
}

/// Deep values are walked, and dropped, recursively. (Untouched pages cost nothing.)
const STACK: usize = 256 << 20;

/// Run `f(i)` for all `i < n` on all cores, in ascending blocks (simplest
/// first). A panic that escapes `f` is a violation.
pub fn par(n: usize, f: impl Fn(usize) + Sync) {
    let threads = std::thread::available_parallelism().map_or(4, |n| n.get());
    let next = AtomicUsize::new(0);
    let block = (n / (threads * 64)).clamp(1, 4096);
    let failed = Mutex::new(None);
    let work = || loop {
        let a = next.fetch_add(block, Relaxed);
        if a >= n {
            break;
        }
        for i in a..(a + block).min(n) {
            CASE.set(i);
            if let Err(e) = catch(|| f(i)) {
                *failed.lock().unwrap() = Some(format!("case {i}: {e}"));
                next.store(n, Relaxed);
                return;
            }
        }
    };
    std::thread::scope(|s| {
        for _ in 0..threads.min(n.max(1)) {
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(s, || if UNWIND.load(Relaxed) { unwinding(work) } else { work() })
                .expect("a thread");
        }
    });
    if let Some(e) = failed.into_inner().unwrap() {
        unexpected(&e);
    }
}

/// A panic nobody expected: the harness itself is deterministic and does not
/// panic on code that holds the property, so the code under test does.
fn unexpected(e: &str) -> ! {
    if let Some(c) = CTX.get() {
        let phase = c.current.lock().map(|c| c.clone()).unwrap_or_default();
        c.fail(&format!("panic: {e}"), || {
            format!("the code under test panicked where it must not: {e}\nwhile exploring: {phase}")
        });
    }
    eprintln!("harness error: {e}");
    std::process::exit(2);
}

/// Body of every check's `main`.
pub fn guard(f: impl FnOnce()) {
    if let Err(e) = catch(f) {
        unexpected(&e);
    }
}

/// All sequences over `0..k` of length exactly `n`: decode index `i`.
pub fn seq(mut i: usize, k: usize, n: usize) -> Vec<usize> {
    let mut v = vec![0; n];
    for s in v.iter_mut().rev() {
        *s = i % k;
        i /= k;
    }
    v
}

/// Run `f` on all sequences over `0..k` with lengths `0..=max`, shortest first.
pub fn all_seqs(k: usize, max: usize, f: impl Fn(&[usize]) + Sync) {
    for n in 0..=max {
        par(k.pow(n as u32), |i| f(&seq(i, k, n)));
    }
}

/// Sizes around every power of two (from 8) and of ten, and all small ones.
pub fn sizes(max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=20.min(max)).collect();
    let mut add = |p: usize| v.extend((p - 2..=p + 2).filter(|x| *x <= max));
    let mut p = 8;
    while p <= max + 2 {
        add(p);
        p *= 2;
    }
    let mut p = 10;
    while p <= max + 2 {
        add(p);
        p *= 10;
    }
    v.sort();
    v.dedup();
    v
}

//! Running cases, counting what they covered, and reporting what went wrong.

use std::{
    collections::{BTreeMap, HashSet},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicU64, AtomicUsize, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};

use serde_json::{json, Value};

use crate::rng::{hash, mix, Rng};

static SECTION_AT: AtomicUsize = AtomicUsize::new(0);
static SECTION_LEN: AtomicUsize = AtomicUsize::new(0);
static INDEX: AtomicU64 = AtomicU64::new(0);
static STARTED: AtomicU64 = AtomicU64::new(0);

extern "C" {
    fn _exit(code: i32) -> !;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn signal(sig: i32, handler: usize) -> usize;
}

fn put(s: &[u8]) {
    unsafe { write(1, s.as_ptr(), s.len()) };
}

fn put_number(mut n: u64) {
    let mut b = [0u8; 20];
    let mut i = 20;
    loop {
        i -= 1;
        b[i] = b'0' + (n % 10) as u8;
        n /= 10;
        if n == 0 {
            break;
        }
    }
    put(&b[i..]);
}

/// Ends the harness at once, saying which case it was in. Allocates nothing.
pub fn die(why: &str, n: u64) -> ! {
    put(b"\nMON-DIED ");
    put(why.as_bytes());
    put(b" ");
    put_number(n);
    put(b" section=");
    let at = SECTION_AT.load(Ordering::Relaxed) as *const u8;
    if !at.is_null() {
        put(unsafe { std::slice::from_raw_parts(at, SECTION_LEN.load(Ordering::Relaxed)) });
    }
    put(b" index=");
    put_number(INDEX.load(Ordering::Relaxed));
    put(b"\n");
    unsafe { _exit(77) }
}

extern "C" fn on_signal(sig: i32) {
    die("MON-SIGNAL", sig as u64)
}

static FAILED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// How long to wait for what should happen at once. Shorter when the verdict is clear already.
pub fn patience() -> Duration {
    Duration::from_secs(if FAILED.load(Ordering::Relaxed) { 1 } else { 40 })
}

pub struct Case {
    pub rng: Rng,
    pub index: u64,
    pub tier_thorough: bool,
    keys: Vec<u64>,
    counts: BTreeMap<&'static str, u64>,
    pub input: Value,
}

impl Case {
    /// Marks what makes this case different from others.
    pub fn key(&mut self, bytes: &[u8]) {
        self.keys.push(hash(bytes));
    }

    pub fn count(&mut self, what: &'static str, n: u64) {
        *self.counts.entry(what).or_insert(0) += n;
    }
}

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub scale: f64,
    pub replay: Option<(String, u64)>,
    pub rule: String,
    /// At most so many cases of each kind, for at most so many seconds, and none of those which take long.
    pub few: Option<(u64, f64)>,
    deadline: Instant,
    evals: u64,
    distinct: HashSet<u64>,
    counts: BTreeMap<String, u64>,
    sections: BTreeMap<String, u64>,
    samples: Vec<Value>,
    violations: Vec<Value>,
    cut_short: Vec<String>,
    exhaustive: bool,
}

static LAST_PANIC: Mutex<Option<String>> = Mutex::new(None);

pub fn take_panic() -> String {
    LAST_PANIC
        .lock()
        .unwrap_or_else(|e| e.into_inner())
        .take()
        .unwrap_or_default()
}

pub fn install() {
    std::panic::set_hook(Box::new(|info| {
        let text = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let at = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if std::env::var_os("MON_TRACE").is_some() {
            eprintln!("panic at {at}: {text}");
        }
        *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = Some(format!("{text} (at {at})"));
    }));
    if cfg!(not(any(miri, mon_asan))) {
        for sig in [6, 7, 4] {
            unsafe { signal(sig, on_signal as extern "C" fn(i32) as *const () as usize) };
        }
    }
    if cfg!(any(miri, mon_asan)) {
        return;
    }
    std::thread::spawn(|| {
        let mut seen = (0, 0);
        let mut cpu_then = cpu();
        loop {
            std::thread::sleep(Duration::from_secs(1));
            let now = (INDEX.load(Ordering::Relaxed), STARTED.load(Ordering::Relaxed));
            if now != seen {
                seen = now;
                cpu_then = cpu();
                continue;
            }
            if seen.1 != 0 && cpu() - cpu_then > 45.0 {
                die("MON-SPIN", 0);
            }
        }
    });
}

/// Seconds of CPU time of this process.
pub fn cpu() -> f64 {
    let stat = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = stat.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let t = |i: usize| f.get(i).and_then(|s| s.parse::<f64>().ok()).unwrap_or(0.0);
    (t(11) + t(12)) / 100.0
}

impl Ctx {
    pub fn new(id: &str, thorough: bool, seed: u64, limit: f64, scale: f64) -> Self {
        Ctx {
            id: id.to_string(),
            thorough,
            seed,
            scale,
            replay: None,
            rule: String::new(),
            few: None,
            deadline: Instant::now() + Duration::from_secs_f64(limit),
            evals: 0,
            distinct: HashSet::new(),
            counts: BTreeMap::new(),
            sections: BTreeMap::new(),
            samples: Vec::new(),
            violations: Vec::new(),
            cut_short: Vec::new(),
            exhaustive: false,
        }
    }

    /// Runs `quick` cases (many more of them in the thorough tier) of one kind.
    pub fn section(
        &mut self,
        name: &'static str,
        quick: u64,
        f: impl Fn(&mut Case) -> Result<(), String>,
    ) {
        let n = if self.thorough { quick * 25 } else { quick };
        self.run(name, ((n as f64 * self.scale) as u64).max(1), f);
    }

    /// Runs exactly the given number of cases, in every tier: an enumeration.
    pub fn all(&mut self, name: &'static str, n: u64, f: impl Fn(&mut Case) -> Result<(), String>) {
        self.run(name, n, f);
    }

    fn run(&mut self, name: &'static str, n: u64, f: impl Fn(&mut Case) -> Result<(), String>) {
        let mut from = 0;
        let mut to = n;
        if let Some((section, index)) = &self.replay {
            if section != name {
                return;
            }
            from = *index;
            to = *index + 1;
        }
        let mut until = self.deadline;
        if let Some((most, seconds)) = self.few {
            const LONG: &[&str] = &[
                "cut anywhere", "failing transports", "all truncations", "failing writers", "long streams", "two pieces",
                "many connections", "large answers", "nobody reads the answer", "all small ones", "every place", "many fragments", "huge bodies", "huge messages", "more than 4 GiB written",
            ];
            if LONG.contains(&name) {
                return;
            }
            to = most;
            until = until.min(Instant::now() + Duration::from_secs_f64(seconds));
        }
        SECTION_AT.store(name.as_ptr() as usize, Ordering::Relaxed);
        SECTION_LEN.store(name.len(), Ordering::Relaxed);
        let mut failed = 0;
        let mut sampled = 0;
        for index in from..to {
            if (index % 16 == 0 || self.few.is_some()) && Instant::now() > until {
                self.cut_short.push(format!("{name} after {index} of {n} cases"));
                break;
            }
            let mut case = Case {
                rng: Rng::new(mix(self.seed) ^ hash(name.as_bytes()) ^ mix(index.wrapping_mul(2654435761))),
                index,
                tier_thorough: self.thorough,
                keys: vec![],
                counts: BTreeMap::new(),
                input: Value::Null,
            };
            INDEX.store(index, Ordering::Relaxed);
            STARTED.fetch_add(1, Ordering::Relaxed);
            let _ = take_panic();
            let result = match catch_unwind(AssertUnwindSafe(|| f(&mut case))) {
                Ok(r) => r,
                Err(_) => Err(format!("panicked: {}", take_panic())),
            };
            self.evals += 1;
            *self.sections.entry(name.to_string()).or_insert(0) += 1;
            // a case without a key is a trivial one
            if !case.keys.is_empty() {
                let all: Vec<u8> = case.keys.iter().flat_map(|k| k.to_le_bytes()).collect();
                self.distinct.insert(hash(&all));
            }
            for (k, v) in case.counts {
                *self.counts.entry(k.to_string()).or_insert(0) += v;
            }
            if let Err(message) = result {
                let mut v = json!({
                    "property": self.id, "section": name, "index": index, "seed": self.seed,
                    "thorough": self.thorough, "message": message, "input": case.input,
                });
                // what a listed finding is recognised by
                if let Some((sig, rest)) = message.strip_prefix("[[").and_then(|m| m.split_once("]] ")) {
                    v["signature"] = json!(sig);
                    v["message"] = json!(rest);
                }
                self.violations.push(v);
                failed += 1;
                FAILED.store(true, Ordering::Relaxed);
                if failed >= 3 {
                    break;
                }
            } else if sampled < 2 && !case.input.is_null() && (index % 7 == 3 || n < 10) {
                sampled += 1;
                self.samples.push(json!({"section": name, "index": index, "input": case.input}));
            }
        }
        STARTED.store(0, Ordering::Relaxed);
    }

    pub fn add(&mut self, what: &str, n: u64) {
        *self.counts.entry(what.to_string()).or_insert(0) += n;
    }

    pub fn exhaustive(&mut self) {
        self.exhaustive = true;
    }

    /// What the run covered, and what it found.
    pub fn finish(self) -> Value {
        json!({
            "evaluations": self.evals,
            "distinct_nontrivial": self.distinct.len(),
            "rule": self.rule,
            "observed": self.counts,
            "cases_per_section": self.sections,
            "cut_short": self.cut_short,
            "samples": self.samples,
            "violations": self.violations,
        })
    }
}

/// Bytes for people.
pub fn show(b: &[u8]) -> String {
    let mut s = String::new();
    for &c in b.iter().take(400) {
        s.extend(std::ascii::escape_default(c).map(|c| c as char));
    }
    if b.len() > 400 {
        s += &format!("... ({} bytes)", b.len());
    }
    s
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($t:tt)*) => { if !$cond { return Err(format!($($t)*)); } };
}

/// Compares two byte strings and says where they differ.
pub fn same(what: &str, got: &[u8], want: &[u8]) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    let at = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    Err(format!(
        "{what}: {} bytes instead of {}, the first difference is at {at}: got {:?}, expected {:?}",
        got.len(),
        want.len(),
        show(&got[at..got.len().min(at + 40)]),
        show(&want[at..want.len().min(at + 40)])
    ))
}

//! Common parts of the monitors: deterministic randomness, an independent bencode implementation,
//! an independent SHA-1, the line protocol that check.py aggregates, and the panic monitor.
pub mod bencode;
pub mod content;
pub mod fakepeer;
pub mod kad;
pub mod net;
pub mod rng;
pub mod sha1;
#[cfg(miri)]
pub mod shim;
pub mod vt;

use std::collections::HashMap;
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

pub use rng::Rng;

struct State {
    counters: HashMap<String, u64>,
    cases: HashSet<u64>,
    samples: HashMap<String, u32>,
    violations: HashMap<String, u32>,
}

static STATE: Mutex<Option<State>> = Mutex::new(None);
static EVALS: AtomicU64 = AtomicU64::new(0);

fn with<T>(f: impl FnOnce(&mut State) -> T) -> T {
    let mut s = STATE.lock().unwrap_or_else(|e| e.into_inner());
    f(s.get_or_insert_with(|| State {
        counters: HashMap::new(),
        cases: HashSet::new(),
        samples: HashMap::new(),
        violations: HashMap::new(),
    }))
}

/// observed event of this kind
pub fn count(name: &str, n: u64) {
    with(|s| *s.counters.entry(name.to_string()).or_insert(0) += n);
}

/// one evaluation of the oracle; `case` identifies what was evaluated (non-trivial ones only)
pub fn eval(case: Option<u64>) {
    EVALS.fetch_add(1, Ordering::Relaxed);
    if let Some(c) = case {
        with(|s| {
            // a lower bound is enough: memory is limited
            if s.cases.len() < 400_000 {
                s.cases.insert(c);
            }
        });
    }
}

pub fn hash_of(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

fn clean(s: &str) -> String {
    let t: String = s.chars().map(|c| if c.is_control() { ' ' } else { c }).collect();
    t.chars().take(1500).collect()
}

/// at most three samples of each kind are kept
pub fn sample(kind: &str, text: impl FnOnce() -> String) {
    let keep = with(|s| {
        let n = s.samples.entry(kind.to_string()).or_insert(0);
        *n += 1;
        *n <= 2
    });
    if keep {
        println!("@s {}: {}", kind, clean(&text()));
    }
}

pub fn violation(key: &str, detail: &str) {
    let keep = with(|s| {
        let n = s.violations.entry(key.to_string()).or_insert(0);
        *n += 1;
        *n <= 3
    });
    if keep {
        println!("@v {} | {}", key, clean(detail));
        use std::io::Write;
        let _ = std::io::stdout().flush();
    }
}

pub fn violation_count() -> u64 {
    with(|s| s.violations.values().map(|x| *x as u64).sum())
}

/// prints everything that was counted; without it check.py treats the worker as one that died
pub fn finish() -> ! {
    with(|s| {
        for (k, v) in &s.counters {
            println!("@n {} {}", k, v);
        }
        for c in &s.cases {
            println!("@c {:x}", c);
        }
    });
    println!("@e {}", EVALS.load(Ordering::Relaxed));
    println!("@done");
    use std::io::Write;
    let _ = std::io::stdout().flush();
    end(0)
}

/// for mistakes of the harness itself or an environment that can't run it: inconclusive, not a violation
pub fn inconclusive(why: &str) -> ! {
    println!("@x {}", clean(why));
    use std::io::Write;
    let _ = std::io::stdout().flush();
    end(3)
}

fn end(code: i32) -> ! {
    #[cfg(miri)]
    std::process::exit(code);
    #[cfg(not(miri))]
    unsafe {
        libc::_exit(code)
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

pub fn show(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(400) {
        if (0x20..0x7f).contains(x) && *x != b'\\' {
            s.push(*x as char)
        } else {
            s.push_str(&format!("\\x{:02x}", x))
        }
    }
    if b.len() > 400 {
        s.push_str(&format!("...({} bytes)", b.len()));
    }
    s
}

/// every panic outside of the harness is a violation: nothing that the client does may be ended by one
pub fn install_panic_monitor() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let file = loc.split(':').next().unwrap_or("").to_string();
        if file.starts_with("src/") || file.contains("/harness/src/") {
            inconclusive(&format!("harness panicked at {}: {}", loc, msg));
        }
        if TOLERATE.lock().unwrap_or_else(|e| e.into_inner()).iter().any(|t| msg.contains(t.as_str())) {
            return;
        }
        let short = loc.rsplit("/src/").next().unwrap_or(&loc).to_string();
        violation(
            &format!("panic:{}", short.split(':').next().unwrap_or("")),
            &format!("panic at {} in {:?}: {} [context: {}]", loc, std::thread::current().name(), msg, context()),
        );
    }));
}

static TOLERATE: Mutex<Vec<String>> = Mutex::new(Vec::new());

static CONTEXT: Mutex<String> = Mutex::new(String::new());

/// what is being executed right now, for reports of panics and hangs
pub fn set_context(s: String) {
    *CONTEXT.lock().unwrap_or_else(|e| e.into_inner()) = s;
}

pub fn context() -> String {
    CONTEXT.lock().unwrap_or_else(|e| e.into_inner()).clone()
}

static BEAT: AtomicU64 = AtomicU64::new(0);

/// a case that doesn't end in `secs` is reported as a violation with the key "hang"
pub fn install_hang_monitor(secs: u64) {
    // interpreted
    let secs = if cfg!(miri) { secs * 50 } else { secs };
    std::thread::spawn(move || {
        let mut last = BEAT.load(Ordering::Relaxed);
        let mut since = std::time::Instant::now();
        loop {
            std::thread::sleep(std::time::Duration::from_millis(200));
            let now = BEAT.load(Ordering::Relaxed);
            if now != last {
                last = now;
                since = std::time::Instant::now();
            } else if since.elapsed().as_secs() > secs {
                violation("hang", &format!("no progress in {} s [context: {}]", secs, context()));
                finish();
            }
        }
    });
}

pub fn beat() {
    BEAT.fetch_add(1, Ordering::Relaxed);
}

/// command line: <property> key=value...
pub struct Args {
    pub property: String,
    kv: HashMap<String, String>,
}

impl Args {
    pub fn parse() -> Self {
        let mut it = std::env::args().skip(1);
        let property = it.next().unwrap_or_default();
        let kv = it
            .filter_map(|a| a.split_once('=').map(|(k, v)| (k.to_string(), v.to_string())))
            .collect();
        Self { property, kv }
    }
    pub fn num(&self, k: &str, default: u64) -> u64 {
        self.kv.get(k).and_then(|v| v.parse().ok()).unwrap_or(default)
    }
    pub fn text(&self, k: &str, default: &str) -> String {
        self.kv.get(k).cloned().unwrap_or_else(|| default.to_string())
    }
    pub fn rng(&self) -> Rng {
        Rng::new(self.num("seed", 1).wrapping_mul(1_000_003).wrapping_add(self.num("worker", 0)) ^ hash_of(self.property.as_bytes()))
    }
}

pub fn silence_tokio_panics(msgs: &[&str]) {
    *TOLERATE.lock().unwrap() = msgs.iter().map(|s| s.to_string()).collect();
}

//! Shared by the drivers: a seeded generator, panic capture, a watchdog and ndjson output.
use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Duration;

pub use serde_json;
pub use serde_json::{Value, json};

/// xorshift64*, seeded through splitmix64.
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut z = seed.wrapping_add(0x9E37_79B9_7F4A_7C15);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        Rng((z ^ (z >> 31)) | 1)
    }
    /// The seed the check was given, mixed with a driver specific salt.
    pub fn from_env(salt: u64) -> Self {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1);
        Rng::new((seed as u64).wrapping_mul(1_000_003).wrapping_add(salt))
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 >> 12;
        self.0 ^= self.0 << 25;
        self.0 ^= self.0 >> 27;
        self.0.wrapping_mul(0x2545_F491_4F6C_DD1D)
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { ((self.next() >> 11) % n as u64) as usize }
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
}

static TICKS: AtomicU64 = AtomicU64::new(0);
static AT: Mutex<String> = Mutex::new(String::new());

/// Quiets panics and starts the watchdog: exit status 3 when nothing moves for `secs`.
pub fn init(secs: u64) {
    if std::env::var_os("VF_PANICS").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    std::thread::spawn(move || {
        let mut last = u64::MAX;
        loop {
            std::thread::sleep(Duration::from_secs(secs));
            let now = TICKS.load(Ordering::SeqCst);
            if now == last {
                let at = AT.lock().map(|s| s.clone()).unwrap_or_default();
                eprintln!("HANG {at}");
                std::process::exit(3);
            }
            last = now;
        }
    });
}

/// Marks progress: the case the code under test is about to be given.
pub fn at(what: &str) {
    TICKS.fetch_add(1, Ordering::SeqCst);
    if let Ok(mut s) = AT.lock() {
        s.clear();
        s.push_str(what);
    }
}

/// As `at`, and written to stderr, for code that may kill the process.
pub fn at_loud(what: &str) {
    at(what);
    eprintln!("AT {what}");
}

/// Runs code under test: its panic is data.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".to_string())
    })
}

pub fn emit(v: &Value) {
    let out = std::io::stdout();
    let mut out = out.lock();
    let _ = serde_json::to_writer(&mut out, v);
    let _ = out.write_all(b"\n");
}

/// Lines of an ndjson file.
pub fn read_ndjson(path: &str) -> Vec<Value> {
    std::fs::read_to_string(path)
        .unwrap()
        .lines()
        .filter(|l| !l.is_empty())
        .map(|l| serde_json::from_str(l).unwrap())
        .collect()
}

/// Text as a JSON array of code points.
pub fn codes(s: &str) -> Value {
    Value::Array(s.chars().map(|c| json!(c as u32)).collect())
}

pub fn from_codes(v: &Value) -> String {
    v.as_array()
        .unwrap()
        .iter()
        .map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap())
        .collect()
}

pub fn bytes(s: &[u8]) -> Value {
    Value::Array(s.iter().map(|c| json!(*c)).collect())
}

/// Every text that is one edit away from `s`: each character dropped, doubled, swapped with the next, replaced by and
/// preceded by each of `chars`, its case flipped.
pub fn edits(s: &str, chars: &[char]) -> Vec<String> {
    let cs: Vec<char> = s.chars().collect();
    let mut out = std::collections::BTreeSet::new();
    for i in 0..=cs.len() {
        let (head, tail) = (&cs[..i], &cs[i..]);
        let mut add = |mid: &[char], skip: usize| {
            out.insert(head.iter().chain(mid).chain(&tail[skip.min(tail.len())..]).collect::<String>());
        };
        for c in chars {
            add(&[*c], 0);
            add(&[*c], 1);
        }
        if let Some(c) = tail.first() {
            add(&[], 1);
            add(&[*c, *c], 1);
            let flipped = if c.is_uppercase() { c.to_lowercase().next() } else { c.to_uppercase().next() };
            add(&[flipped.unwrap()], 1);
            if let Some(d) = tail.get(1) {
                add(&[*d, *c], 2);
            }
        }
    }
    out.into_iter().collect()
}
pub fn printable() -> Vec<char> {
    (' '..='~').collect()
}

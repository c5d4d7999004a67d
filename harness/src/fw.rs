//! Exploration framework: sharded, replayable, exhaustive enumeration of cases with a watchdog.
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Viol {
    pub key: String,
    pub desc: String,
    pub case: u64,
}

pub struct Ctx {
    pub tier: Tier,
    pub shard: u64,
    pub nshards: u64,
    pub only: Option<u64>,
    next: u64,
    pub cur: u64,
    progress: Option<*const AtomicU64>,
    /// set by the parent when a violation has been found long enough ago: the rest is then not explored
    stop: Option<*const AtomicU64>,
    /// violations are also noted here at once, in case this worker does not get to its end
    pub notes: Option<String>,
    pub known: Vec<String>,
    pub transitions: u64,
    pub traces: u64,
    pub cases: u64,
    pub states: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub viols: Vec<Viol>,
    pub nviol: u64,
    seen_keys: BTreeMap<String, u32>,
}

/// Cap on remembered distinct states per worker (the count is then a lower bound and reported as such).
pub const STATE_CAP: usize = 3_000_000;

impl Ctx {
    pub fn new(tier: Tier, shard: u64, nshards: u64, only: Option<u64>, progress: Option<*const AtomicU64>) -> Self {
        Ctx {
            tier,
            shard,
            nshards,
            only,
            next: 0,
            cur: 0,
            progress,
            stop: None,
            notes: None,
            known: vec![],
            transitions: 0,
            traces: 0,
            cases: 0,
            states: HashSet::new(),
            counters: BTreeMap::new(),
            samples: vec![],
            viols: vec![],
            nviol: 0,
            seen_keys: BTreeMap::new(),
        }
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.quick() {
            q
        } else {
            t
        }
    }
    /// Claims the next case of the enumeration; true if this worker is to run it.
    pub fn mine(&mut self) -> bool {
        let i = self.next;
        self.next += 1;
        let m = match self.only {
            Some(o) => o == i,
            None => spread(i) % self.nshards == self.shard && !self.stopped(),
        };
        if m {
            self.cur = i;
            self.cases += 1;
            if let Some(p) = self.progress {
                unsafe { (*p).store(i + 1, Ordering::Relaxed) };
            }
        }
        m
    }
    /// Tells the watchdog that this case is still advancing.
    pub fn tick(&mut self) {
        if let Some(p) = self.progress {
            unsafe {
                let q = p.add(1);
                (*q).fetch_add(1, Ordering::Relaxed);
            }
        }
    }
    fn stopped(&self) -> bool {
        self.stop.map_or(false, |p| unsafe { (*p).load(Ordering::Relaxed) != 0 })
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn state(&mut self, h: u64) {
        if self.states.len() < STATE_CAP {
            self.states.insert(h);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let s = f();
            self.samples.push(s);
        }
    }
    /// key: stable identification of what fails (call site / input class); desc: the concrete input or history.
    pub fn fail(&mut self, key: &str, desc: String) {
        self.nviol += 1;
        let n = self.seen_keys.entry(key.to_string()).or_insert(0);
        *n += 1;
        if *n <= 3 && self.viols.len() < 200 {
            if !self.known.iter().any(|k| k == key) {
                if let Some(p) = self.progress {
                    unsafe { (*p.add(2)).store(1, Ordering::Relaxed) };
                }
                if let Some(f) = &self.notes {
                    let j = serde_json::json!({"key": key, "desc": desc, "case": self.cur});
                    if let Ok(mut f) = std::fs::OpenOptions::new().create(true).append(true).open(f) {
                        let _ = f.write_all(format!("{}\n", j).as_bytes());
                    }
                }
            }
            self.viols.push(Viol { key: key.to_string(), desc, case: self.cur });
        }
    }
    pub fn check(&mut self, ok: bool, key: &str, desc: impl FnOnce() -> String) -> bool {
        if !ok {
            let d = desc();
            self.fail(key, d);
        }
        ok
    }
}

fn spread(i: u64) -> u64 {
    // consecutive cases go to different workers, without resonance with loop strides
    let mut z = i.wrapping_mul(0x9E3779B97F4A7C15);
    z ^= z >> 32;
    z
}

pub fn hash64(parts: &[u64]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &p in parts {
        h ^= p;
        h = h.wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 29;
    }
    h
}

/// Runs code under test; Err carries the abort (panic) message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => Err(if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }),
    }
}

pub struct Property {
    pub id: &'static str,
    pub run: fn(&mut Ctx),
    pub assumptions: &'static [&'static str],
    pub bounds: fn(Tier) -> String,
}

pub fn worker(p: &Property, tier: Tier, shard: u64, n: u64, only: Option<u64>, out: &str, progress_file: Option<&str>) {
    std::panic::set_hook(Box::new(|_| {}));
    let progress = progress_file.map(|f| map_progress(f, n).wrapping_add((shard * WORDS) as usize));
    // the library prints on every operation: send that to /dev/null
    unsafe {
        let dn = libc::open(b"/dev/null\0".as_ptr() as *const libc::c_char, libc::O_WRONLY);
        libc::dup2(dn, 1);
    }
    let mut cx = Ctx::new(tier, shard, n, only, progress);
    cx.stop = progress_file.map(|f| map_progress(f, n).wrapping_add((n * WORDS) as usize));
    cx.notes = Some(format!("{}.notes", out));
    cx.known = known_findings(p.id).into_iter().map(|k| k.0).collect();
    // what aborts outside the guarded calls (an answer of the code that cannot be taken further) is a finding too
    if let Err(t) = guard(|| (p.run)(&mut cx)) {
        cx.fail("abort-outside", format!("exploration aborted: {}", t));
    }
    let v: Vec<serde_json::Value> = cx
        .viols
        .iter()
        .map(|v| serde_json::json!({"key": v.key, "desc": v.desc, "case": v.case}))
        .collect();
    let j = serde_json::json!({
        "transitions": cx.transitions, "traces": cx.traces, "cases": cx.cases, "total_cases": cx.next,
        "counters": cx.counters, "samples": cx.samples, "viols": v, "nviol": cx.nviol,
        "capped": cx.states.len() >= STATE_CAP,
        "keys": cx.seen_keys,
    });
    let mut f = std::fs::File::create(out).expect("worker output");
    f.write_all(j.to_string().as_bytes()).unwrap();
    let mut bytes: Vec<u8> = Vec::with_capacity(cx.states.len() * 8);
    for h in &cx.states {
        bytes.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(format!("{}.states", out), bytes).expect("worker states");
}

/// (key, what fails) of the open findings listed for a property
pub fn known_findings(id: &str) -> Vec<(String, String)> {
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    std::fs::read_to_string(format!("{}/known-findings.json", root))
        .ok()
        .and_then(|t| serde_json::from_str::<serde_json::Value>(&t).ok())
        .map(|j| {
            j["findings"]
                .as_array()
                .cloned()
                .unwrap_or_default()
                .iter()
                .filter(|f| f["property"] == id && f["status"] == "open")
                .map(|f| (f["key"].as_str().unwrap_or("").to_string(), f["what"].as_str().unwrap_or("").to_string()))
                .collect()
        })
        .unwrap_or_default()
}

/// words of shared memory per worker: current case, ticks, whether it has found a violation; one more for all: stop
pub const WORDS: u64 = 3;
pub fn map_progress(path: &str, n: u64) -> *const AtomicU64 {
    use std::os::unix::io::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).open(path).expect("progress file");
    f.set_len(8 * WORDS * n.max(1) + 8).unwrap();
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            (8 * WORDS * n.max(1) + 8) as usize,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        );
        assert!(p != libc::MAP_FAILED);
        p as *const AtomicU64
    }
}

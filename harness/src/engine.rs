//! Exhaustive exploration of the cases of a check by several worker processes.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// A finite space, completely enumerated: cases 0..size.
pub struct Domain {
    pub name: String,
    pub size: u64,
    pub chunk: u64,
    pub run: Box<dyn Fn(u64, &mut Cx) -> R>,
}
impl Domain {
    pub fn new(name: &str, size: u64, run: impl Fn(u64, &mut Cx) -> R + 'static) -> Self {
        let chunk = (size / 400).max(1).min(4096);
        Domain { name: name.into(), size, chunk, run: Box::new(run) }
    }
    pub fn chunk(mut self, c: u64) -> Self {
        self.chunk = c;
        self
    }
}

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub bounds: String,
    pub domains: Vec<Domain>,
    pub assumptions: Vec<String>,
}

/// Is this the second pass: the crates without debug assertions and overflow checks, evenly spaced cases, and another
/// environment for each (variables that are set, a clock that jumps)?
pub fn second() -> bool {
    use std::sync::OnceLock;
    static S: OnceLock<bool> = OnceLock::new();
    *S.get_or_init(|| std::env::var_os("KC_SECOND").is_some())
}
impl Check {
    /// Evenly spaced cases of each domain (all of the small ones).
    pub fn thin(mut self) -> Self {
        for d in self.domains.iter_mut() {
            let step = match d.size {
                0..=1000 => 1,
                1001..=8000 => 7,
                8001..=400_000 => 17,
                _ => 61,
            };
            if step == 1 {
                continue;
            }
            let run = std::mem::replace(&mut d.run, Box::new(|_, _| Ok(())));
            d.run = Box::new(move |i, cx| {
                cx.index = i * step;
                run(i * step, cx)
            });
            d.size = (d.size + step - 1) / step;
            d.chunk = (d.chunk / step).max(1);
            d.name = format!("{} (every {}th)", d.name, step);
        }
        self
    }
}

pub fn hash(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x0000_0100_0000_01b3);
    }
    h ^= h >> 32;
    h.wrapping_mul(0x9E37_79B9_7F4A_7C15)
}
pub fn hash2(a: u64, b: u64) -> u64 {
    (a.rotate_left(17) ^ b).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (b >> 7)
}

/// Counters of what was covered.
#[derive(Default)]
pub struct Cx {
    pub evals: u64,
    pub transitions: u64,
    pub traces: u64,
    pub states: HashSet<u64>,
    pub outcomes: BTreeMap<String, u64>,
    pub samples: Vec<(String, String)>,
    pub extra: BTreeMap<String, u64>,
    pub domain: String,
    pub index: u64,
    pub capped: bool,
}
impl Cx {
    /// One operation of the implementation was executed and its answer compared with the model's.
    #[inline]
    pub fn step(&mut self) {
        self.transitions += 1;
    }
    #[inline]
    pub fn steps(&mut self, n: u64) {
        self.transitions += n;
    }
    /// A state (or an input with the model's answer to it) was reached.
    #[inline]
    pub fn state(&mut self, h: u64) {
        self.states.insert(h);
    }
    pub fn state_of(&mut self, b: &[u8]) {
        self.states.insert(hash(b));
    }
    pub fn outcome(&mut self, s: &str) {
        if let Some(n) = self.outcomes.get_mut(s) {
            *n += 1;
        } else {
            self.outcomes.insert(s.into(), 1);
        }
    }
    pub fn count(&mut self, s: &str, n: u64) {
        *self.extra.entry(s.into()).or_insert(0) += n;
    }
    pub fn max(&mut self, s: &str, n: u64) {
        let e = self.extra.entry(format!("max_{}", s)).or_insert(0);
        *e = (*e).max(n);
    }
    /// Kept for the evidence: one sample per kind.
    pub fn sample(&mut self, kind: &str, f: impl FnOnce() -> String) {
        if self.samples.len() < 24 && !self.samples.iter().any(|(k, _)| k == kind) {
            let mut s = f();
            if s.len() > 400 {
                let mut k = 400;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str("...");
            }
            self.samples.push((kind.into(), s));
        }
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

// ------------------------------------------------------------------ panics

thread_local! { static LAST_PANIC: RefCell<String> = RefCell::new(String::new()); }

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let _g = crate::env::Suspend::new();
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var("KC_TRACE_PANIC").is_ok() {
            eprintln!("panic: {} at {}", msg, at);
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, at));
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}
/// Runs `f`; a panic is Err(message).
pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

fn run_case(d: &Domain, i: u64, cx: &mut Cx) -> R {
    cx.domain = d.name.clone();
    cx.index = i;
    cx.evals += 1;
    let _odd = crate::env::Odd::new(if second() { i + 1 } else { 0 });
    match caught(|| (d.run)(i, cx)) {
        Ok(r) => {
            if r.is_ok() {
                cx.traces += 1;
            }
            r
        }
        Err(p) => Err(format!("panicked: {}", p)),
    }
}

// ------------------------------------------------------------------ shared memory of supervisor and workers

const SLOTS: usize = 64;
#[repr(C)]
struct Shm {
    next: AtomicU64,
    stop: AtomicU64,
    cur: [AtomicU64; SLOTS],   // global case number + 1
    since: [AtomicU64; SLOTS], // ms
}
const MEMO_ENTRIES: usize = 1 << 16;
const MEMO_BYTES: usize = MEMO_ENTRIES * 144;

unsafe fn map(path: &str, len: usize) -> *mut u8 {
    use std::os::unix::io::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).open(path).expect("shm");
    f.set_len(len as u64).expect("shm size");
    let p = libc::mmap(
        std::ptr::null_mut(),
        len,
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_SHARED,
        f.as_raw_fd(),
        0,
    );
    assert!(p != libc::MAP_FAILED);
    p as *mut u8
}

pub fn memo(on: bool) {
    unsafe {
        let t = MEMO.load(SeqCst) as *mut cryptoxide::kcheck::Entry;
        cryptoxide::kcheck::enable(true, t, if on && !t.is_null() { MEMO_ENTRIES } else { 0 });
    }
}
static MEMO: AtomicU64 = AtomicU64::new(0);

fn init_process(dir: Option<&str>) {
    quiet_panics();
    let t = match dir {
        Some(d) => unsafe { map(&format!("{}/memo", d), MEMO_BYTES) },
        None => unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                MEMO_BYTES,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            ) as *mut u8
        },
    };
    MEMO.store(t as u64, SeqCst);
    memo(true);
}

fn now_ms() -> u64 {
    let mut t: libc::timespec = unsafe { std::mem::zeroed() };
    unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t) };
    t.tv_sec as u64 * 1000 + t.tv_nsec as u64 / 1_000_000
}

fn locate(c: &Check, mut g: u64) -> Option<(usize, u64)> {
    for (k, d) in c.domains.iter().enumerate() {
        if g < d.size {
            return Some((k, g));
        }
        g -= d.size;
    }
    None
}

/// The worker: claims chunks of cases until there are none left.
pub fn worker(c: &Check, dir: &str, w: usize) {
    unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
    init_process(Some(dir));
    let shm = unsafe { &*(map(&format!("{}/shm", dir), std::mem::size_of::<Shm>()) as *const Shm) };
    let mut cx = Cx::default();
    let mut per_domain: BTreeMap<usize, u64> = BTreeMap::new();
    let mut spent: BTreeMap<usize, f64> = BTreeMap::new();
    let mut history: Vec<(u64, u64)> = vec![];
    // also in a file, in case this process dies
    let mut hist = std::fs::File::create(format!("{}/hist.{}", dir, w)).expect("history");
    let mut failure: Option<(u64, String)> = None;
    'outer: while shm.stop.load(SeqCst) == 0 {
        // claim a chunk of one domain
        let (start, k, i0, n) = loop {
            let s = shm.next.load(SeqCst);
            let (k, i) = match locate(c, s) {
                Some(x) => x,
                None => break 'outer,
            };
            let n = c.domains[k].chunk.min(c.domains[k].size - i);
            if shm.next.compare_exchange(s, s + n, SeqCst, SeqCst).is_ok() {
                break (s, k, i, n);
            }
        };
        history.push((start, n));
        let mut line = start.to_le_bytes().to_vec();
        line.extend_from_slice(&n.to_le_bytes());
        let _ = std::io::Write::write_all(&mut hist, &line);
        let t0 = Instant::now();
        for j in 0..n {
            if j > 0 && j % 64 == 0 && shm.stop.load(SeqCst) == 2 {
                break 'outer;
            }
            shm.since[w].store(now_ms(), SeqCst);
            shm.cur[w].store(start + j + 1, SeqCst);
            let r = run_case(&c.domains[k], i0 + j, &mut cx);
            *per_domain.entry(k).or_insert(0) += 1;
            if let Err(e) = r {
                failure = Some((start + j, e));
                shm.stop.store(1, SeqCst);
                break 'outer;
            }
        }
        *spent.entry(k).or_insert(0.0) += t0.elapsed().as_secs_f64();
    }
    shm.cur[w].store(0, SeqCst);
    let mut st: Vec<u8> = Vec::with_capacity(cx.states.len() * 8);
    for s in &cx.states {
        st.extend_from_slice(&s.to_le_bytes());
    }
    std::fs::write(format!("{}/states.{}", dir, w), st).expect("states");
    let j = serde_json::json!({
        "evals": cx.evals, "transitions": cx.transitions, "traces": cx.traces,
        "outcomes": cx.outcomes, "extra": cx.extra, "samples": cx.samples, "capped": cx.capped,
        "domains": per_domain.iter().map(|(k, n)| (k.to_string(), *n)).collect::<BTreeMap<_, _>>(),
        "spent": spent.iter().map(|(k, n)| (k.to_string(), *n)).collect::<BTreeMap<_, _>>(),
        "fail": failure.as_ref().map(|(g, e)| serde_json::json!({"case": g, "error": e, "history": history})),
    });
    std::fs::write(format!("{}/stats.{}", dir, w), j.to_string()).expect("stats");
}

/// Runs the given cases in this process (for replays); exit status 3 if one fails.
pub fn single(c: &Check, cases: &[(u64, u64)]) -> i32 {
    init_process(None);
    let mut cx = Cx::default();
    for (s, n) in cases {
        for g in *s..*s + *n {
            let (k, i) = locate(c, g).expect("case number");
            if let Err(e) = run_case(&c.domains[k], i, &mut cx) {
                println!("FAILED {}#{}: {}", c.domains[k].name, i, e);
                return 3;
            }
        }
    }
    println!("passed");
    0
}

/// The cases a worker ran up to this one, joined where they follow each other.
fn up_to(history: &[(u64, u64)], case: u64) -> Vec<(u64, u64)> {
    let mut v: Vec<(u64, u64)> = vec![];
    for (s, n) in history {
        let n = (*n).min((case + 1).saturating_sub(*s).max(if case < *s { *n } else { 0 }));
        match v.last_mut() {
            Some(l) if l.0 + l.1 == *s => l.1 += n,
            _ => v.push((*s, n)),
        }
        if case >= *s && case < *s + n {
            break;
        }
    }
    v
}
pub struct Verdict {
    pub repro: Option<&'static str>,
    pub case: u64,
    pub error: String,
    pub history: Vec<(u64, u64)>,
}

fn spawn_single(id: &str, tier: &str, cases: &[(u64, u64)], limit: u64) -> (Option<i32>, String, bool) {
    use std::io::Read;
    let arg: Vec<String> = cases.iter().map(|(a, b)| format!("{}+{}", a, b)).collect();
    let mut ch = std::process::Command::new(std::env::current_exe().unwrap())
        .args(&["--single", id, tier])
        .arg(arg.join(","))
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .expect("spawn");
    let t = Instant::now();
    loop {
        if let Some(st) = ch.try_wait().expect("wait") {
            let mut s = String::new();
            let _ = ch.stdout.take().unwrap().read_to_string(&mut s);
            return (st.code(), s, false);
        }
        if t.elapsed() > Duration::from_secs(limit) {
            let _ = ch.kill();
            let _ = ch.wait();
            return (None, String::new(), true);
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

pub struct Env {
    pub tier: Tier,
    pub seed: u64,
    pub verif: String,
}

fn known(verif: &str, id: &str) -> Vec<(String, String)> {
    // open: property=C01 case=<domain>#<index> <what fails>
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{}/KNOWN_FINDINGS.txt", verif)) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("open: ") {
                let mut it = r.splitn(3, ' ');
                let p = it.next().unwrap_or("");
                let c = it.next().unwrap_or("");
                let what = it.next().unwrap_or("");
                if p == format!("property={}", id) {
                    v.push((c.trim_start_matches("case=").to_string(), what.to_string()));
                }
            }
        }
    }
    v
}

/// Checks without a second pass: their executions are bound to the instrumentation.
const ONCE: [&str; 1] = ["C29"];

pub fn supervise(c: &Check, env: &Env, t_start: Instant) -> i32 {
    let tier = match env.tier {
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
    };
    let cap = match env.tier {
        Tier::Quick => 600,
        Tier::Thorough => 6 * 3600,
    };
    let hang = match env.tier {
        Tier::Quick => 90_000u64,
        Tier::Thorough => 600_000,
    };
    let total: u64 = c.domains.iter().map(|d| d.size).sum();
    let dir = format!("{}/target/runs/{}.{}", env.verif, c.id, std::process::id());
    std::fs::create_dir_all(&dir).expect("run dir");
    let shm = unsafe { &*(map(&format!("{}/shm", dir), std::mem::size_of::<Shm>()) as *const Shm) };
    let _ = unsafe { map(&format!("{}/memo", dir), MEMO_BYTES) };
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16);
    let mut kids: Vec<Option<std::process::Child>> = (0..n)
        .map(|w| {
            Some(
                std::process::Command::new(std::env::current_exe().unwrap())
                    .args(&["--worker", c.id, tier, &dir, &w.to_string()])
                    .spawn()
                    .expect("spawn worker"),
            )
        })
        .collect();
    let mut capped = false;
    let mut died: Vec<(u64, String, Vec<(u64, u64)>)> = vec![];
    let claimed = |w: usize| -> Vec<(u64, u64)> {
        let num = |b: &[u8]| b.iter().rev().fold(0u64, |n, x| n << 8 | *x as u64);
        std::fs::read(format!("{}/hist.{}", dir, w)).unwrap_or_default().chunks_exact(16).map(|b| (num(&b[..8]), num(&b[8..]))).collect()
    };
    while kids.iter().any(|k| k.is_some()) {
        std::thread::sleep(Duration::from_millis(10));
        for w in 0..n {
            let done = match kids[w].as_mut() {
                None => continue,
                Some(k) => k.try_wait().expect("wait"),
            };
            if let Some(st) = done {
                kids[w] = None;
                if !st.success() {
                    let g = shm.cur[w].load(SeqCst);
                    died.push((g, format!("the process died: {:?}", st), claimed(w)));
                    shm.stop.store(1, SeqCst);
                }
                continue;
            }
            let g = shm.cur[w].load(SeqCst);
            if g != 0 {
                let s = shm.since[w].load(SeqCst);
                if now_ms().saturating_sub(s) > hang {
                    let mut k = kids[w].take().unwrap();
                    let _ = k.kill();
                    let _ = k.wait();
                    died.push((g, "no answer (hang)".into(), claimed(w)));
                    shm.stop.store(1, SeqCst);
                }
            }
        }
        if t_start.elapsed() > Duration::from_secs(cap) && shm.stop.load(SeqCst) == 0 {
            capped = true;
            shm.stop.store(2, SeqCst);
        }
    }
    // gather
    let mut states: HashSet<u64> = HashSet::new();
    let (mut evals, mut transitions, mut traces) = (0u64, 0u64, 0u64);
    let mut outcomes: BTreeMap<String, u64> = BTreeMap::new();
    let mut extra: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<(String, String)> = vec![];
    let mut done: BTreeMap<usize, u64> = BTreeMap::new();
    let mut spent: BTreeMap<usize, f64> = BTreeMap::new();
    let mut fails: Vec<Verdict> = vec![];
    for w in 0..n {
        if let Ok(b) = std::fs::read(format!("{}/states.{}", dir, w)) {
            for x in b.chunks(8) {
                let mut a = [0u8; 8];
                a.copy_from_slice(x);
                states.insert(u64::from_le_bytes(a));
            }
        }
        let j: serde_json::Value = match std::fs::read_to_string(format!("{}/stats.{}", dir, w)) {
            Ok(s) => serde_json::from_str(&s).expect("stats"),
            Err(_) => continue,
        };
        evals += j["evals"].as_u64().unwrap();
        transitions += j["transitions"].as_u64().unwrap();
        traces += j["traces"].as_u64().unwrap();
        capped |= j["capped"].as_bool().unwrap();
        for (k, v) in j["outcomes"].as_object().unwrap() {
            *outcomes.entry(k.clone()).or_insert(0) += v.as_u64().unwrap();
        }
        for (k, v) in j["extra"].as_object().unwrap() {
            let e = extra.entry(k.clone()).or_insert(0);
            if k.starts_with("max_") {
                *e = (*e).max(v.as_u64().unwrap());
            } else {
                *e += v.as_u64().unwrap();
            }
        }
        for s in j["samples"].as_array().unwrap() {
            let (k, v) = (s[0].as_str().unwrap().to_string(), s[1].as_str().unwrap().to_string());
            if !samples.iter().any(|(a, _)| *a == k) {
                samples.push((k, v));
            }
        }
        for (k, v) in j["domains"].as_object().unwrap() {
            *done.entry(k.parse().unwrap()).or_insert(0) += v.as_u64().unwrap();
        }
        for (k, v) in j["spent"].as_object().unwrap() {
            *spent.entry(k.parse().unwrap()).or_insert(0.0) += v.as_f64().unwrap();
        }
        if !j["fail"].is_null() {
            let f = &j["fail"];
            fails.push(Verdict {
                repro: None,
                case: f["case"].as_u64().unwrap(),
                error: f["error"].as_str().unwrap().into(),
                history: f["history"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|x| (x[0].as_u64().unwrap(), x[1].as_u64().unwrap()))
                    .collect(),
            });
        }
    }
    fails.sort_by_key(|f| f.case);
    // a dead or hung worker is a violation only if the case does it again, on its own or after the cases before it
    let mut engine_error = None;
    died.sort();
    for (g, how, hist) in &died {
        if *g == 0 {
            engine_error = Some(format!("a worker failed outside any case: {}", how));
            continue;
        }
        if !fails.is_empty() || (engine_error.is_some() && t_start.elapsed() > Duration::from_secs(400)) {
            break;
        }
        let bad = |r: &(Option<i32>, String, bool)| r.2 || r.0.is_none() || r.0 == Some(3);
        let twice = std::thread::scope(|s| {
            let t: Vec<_> = (0..2).map(|_| s.spawn(|| spawn_single(c.id, tier, &[(*g - 1, 1)], hang / 1000))).collect();
            t.into_iter().all(|t| bad(&t.join().expect("run again")))
        });
        if twice {
            fails.push(Verdict { repro: Some("alone"), case: *g - 1, error: how.clone(), history: vec![(*g - 1, 1)] });
            continue;
        }
        let cases = up_to(hist, *g - 1);
        if bad(&spawn_single(c.id, tier, &cases, 2 * hang / 1000)) {
            fails.push(Verdict { repro: Some("after the cases before it"), case: *g - 1, error: how.clone(), history: hist.clone() });
        } else {
            engine_error = Some(format!("case {}: {}, but not when run alone", g - 1, how));
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let known = known(&env.verif, c.id);
    let mut violation = None;
    let mut findings = 0;
    for f in &fails {
        let (k, i) = locate(c, f.case).unwrap();
        let name = format!("{}#{}", c.domains[k].name, i);
        if let Some((_, what)) = known.iter().find(|(n, _)| *n == name) {
            println!("KNOWN-FINDING: property={} {} {}", c.id, name, what);
            findings += 1;
        } else if violation.is_none() {
            violation = Some((f, k, i, name));
        }
    }
    let mut code = 0;
    if let Some((f, _, _, name)) = &violation {
        // does it need the cases before it?
        let (c1, out, _) = match f.repro {
            None => spawn_single(c.id, tier, &[(f.case, 1)], hang / 1000),
            Some(r) => (if r == "alone" { None } else { Some(0) }, String::new(), true),
        };
        let alone = c1 != Some(0);
        let mut cases = vec![(f.case, 1)];
        let mut repro = "alone";
        if !alone {
            cases = up_to(&f.history, f.case);
            repro = f.repro.unwrap_or_else(|| {
                let (c2, _, _) = spawn_single(c.id, tier, &cases, 2 * hang / 1000);
                if c2 == Some(3) || c2.is_none() {
                    "after the cases before it"
                } else {
                    "not again"
                }
            });
        }
        let _ = std::fs::create_dir_all(format!("{}/replays", env.verif));
        let path = format!("{}/replays/{}.json", env.verif, c.id);
        let j = serde_json::json!({
            "property": c.id, "tier": tier, "second": second(), "case": name, "error": f.error, "reproduced": repro,
            "output_alone": out, "cases": cases,
            "replay": format!("bash {}/run.sh --replay {}", env.verif, path),
        });
        std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).expect("replay file");
        println!("{}: {}", name, f.error);
        println!("reproduced: {}", repro);
        println!("VIOLATION property={} replay={}", c.id, path);
        code = 1;
    } else if let Some(e) = engine_error {
        println!("ENGINE-ERROR {}", e);
        code = 2;
    }
    let completed: u64 = done.values().sum();
    let exhaustive = completed == total && !capped && code == 0;
    let doms: Vec<serde_json::Value> = c
        .domains
        .iter()
        .enumerate()
        .map(|(k, d)| {
            serde_json::json!({"name": d.name, "cases": d.size, "explored": done.get(&k).cloned().unwrap_or(0),
                "cpu_s": (spent.get(&k).cloned().unwrap_or(0.0) * 100.0).round() / 100.0})
        })
        .collect();
    if second() {
        let j = serde_json::json!({
            "cases": completed, "of": total, "states": states.len(), "transitions": transitions, "exhaustive": exhaustive,
            "domains": doms, "outcomes": outcomes,
            "build": "debug assertions and overflow checks off, no instrumentation",
            "environment": "every variable asked for is set to one of 6 values; the clock jumps by an hour each time it is read",
        });
        std::fs::write(std::env::var_os("KC_SECOND").unwrap(), j.to_string()).expect("second pass");
        println!("{} {}, second pass: {} of {} cases, {} states, exhaustive={}", c.id, tier, completed, total, states.len(), exhaustive);
        return code;
    }
    let mut again = serde_json::Value::Null;
    if code == 0 && !ONCE.contains(&c.id) {
        let to = format!("{}/target/second.{}.{}.json", env.verif, c.id, std::process::id());
        let st = std::process::Command::new(format!("{}/target/p/plain/kcheck", env.verif))
            .arg(c.id)
            .env("KC_SECOND", &to)
            .status()
            .expect("second pass");
        code = st.code().unwrap_or(2);
        again = std::fs::read_to_string(&to).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or(again);
        let _ = std::fs::remove_file(&to);
        if code == 0 && again.is_null() {
            println!("ENGINE-ERROR the second pass gave no result");
            code = 2;
        }
    }
    let wall = t_start.elapsed().as_secs_f64();
    let ev = serde_json::json!({
        "property": c.id, "tier": tier, "seed": env.seed, "level": "model_checking",
        "coverage": {
            "states": states.len(), "transitions": transitions, "traces_validated_against_impl": traces,
            "evaluations": evals, "exhaustive": exhaustive,
            "rule": c.rule, "bounds": c.bounds, "domains": doms, "outcomes": outcomes, "counts": extra,
            "samples": samples.iter().map(|(k, v)| format!("{}: {}", k, v)).collect::<Vec<_>>(),
            "workers": n, "known_findings": findings, "second_pass": again,
        },
        "assumptions": c.assumptions,
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": if code == 1 { 1 } else { 0 },
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", env.verif));
    std::fs::write(format!("{}/evidence/{}.json", env.verif, c.id), serde_json::to_string_pretty(&ev).unwrap())
        .expect("evidence");
    println!(
        "{} {}: {} of {} cases, {} states, {} transitions, {} traces, exhaustive={}, {:.1} s",
        c.id, tier, completed, total, states.len(), transitions, traces, exhaustive, wall
    );
    if code == 0 && states.is_empty() {
        println!("ENGINE-ERROR nothing was explored");
        return 2;
    }
    code
}

//! Runs the workloads of a property under the monitors, in a child process, and reports.
//!
//! Three outcomes: held on what was observed (exit 0), violated (exit 1 with a replay file), or
//! inconclusive (exit 2: harness error, too little observed, a hang or crash that does not repeat).

use crate::rng::{mix, Rng};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::process::{Command, ExitStatus, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type V = Result<(), String>;

/// State of one case.
pub struct Ctx {
    pub r: Rng,
    pub thorough: bool,
    pub counts: BTreeMap<&'static str, u64>,
    pub maxima: BTreeMap<&'static str, u64>,
    pub evals: u64,
    pub hashes: Vec<u64>,
    /// What the case is made of, for samples and replays.
    pub input: String,
}

impl Ctx {
    pub fn new(seed: u64, thorough: bool) -> Self {
        Ctx {
            r: Rng::new(seed),
            thorough,
            counts: BTreeMap::new(),
            maxima: BTreeMap::new(),
            evals: 0,
            hashes: vec![],
            input: String::new(),
        }
    }
    pub fn count(&mut self, k: &'static str) {
        self.add(k, 1);
    }
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.counts.entry(k).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.maxima.entry(k).or_insert(0);
        *e = (*e).max(n);
    }
    /// One judged execution; `nontrivial` carries what identifies it.
    pub fn judged(&mut self, nontrivial: Option<&[u8]>) {
        self.evals += 1;
        if let Some(b) = nontrivial {
            self.hashes.push(crate::rng::hash_bytes(b));
        }
    }
}

pub type CaseFn = fn(&mut Ctx) -> V;
pub type ProbeFn = fn() -> V;

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub case: CaseFn,
    /// Cases in the quick and thorough tiers.
    pub quick: u64,
    pub thorough: u64,
    /// Fixed executions, each in a process of its own (deep nesting, exhaustive sweeps).
    pub probes: &'static [(&'static str, ProbeFn)],
    /// Counters that must be reached, or the run observed too little.
    pub need: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

// ---------------------------------------------------------------------------------------------
// Allocation monitor

pub struct Counting;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
}
const MEM_LIMIT: i64 = 2 << 30;

fn over() -> ! {
    unsafe { _exit(5) }
}
extern "C" {
    fn _exit(code: i32) -> !;
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = LIVE.try_with(|c| {
            let n = c.get() + l.size() as i64;
            c.set(n);
            if n > MEM_LIMIT {
                over()
            }
        });
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|c| c.set(c.get() - l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = LIVE.try_with(|c| {
            let v = c.get() + n as i64 - l.size() as i64;
            c.set(v);
            if v > MEM_LIMIT {
                over()
            }
        });
        System.realloc(p, l, n)
    }
}

// ---------------------------------------------------------------------------------------------
// Panic monitor

thread_local! {
    static PANIC: RefCell<Option<(String, bool)>> = const { RefCell::new(None) };
}

/// Starts the message of a panic the harness raises about the crate.
pub const BLAME: &str = "the crate made";

/// Records each panic and whether it came from the harness itself.
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let harness = if msg.starts_with(BLAME) {
            false
        } else if loc.starts_with("src/") {
            true
        } else if loc.starts_with("/repo/") || (loc.starts_with('/') && !["/rustc/", "/rustlib/", "/registry/"].iter().any(|d| loc.contains(d))) {
            // The crate, wherever it was built from
            false
        } else {
            // Whose frame is nearest
            let bt = std::backtrace::Backtrace::force_capture().to_string();
            let mut h = false;
            let mut past = false;
            for line in bt.lines() {
                if line.contains("install_hook") || line.contains("rust_panic") || line.contains("begin_unwind") || line.contains("panic_fmt") {
                    past = true;
                    continue;
                }
                if !past {
                    continue;
                }
                if line.contains("sgmlish::") || line.contains("/repo/src/") {
                    break;
                }
                if line.contains("mon::") || line.trim_start().starts_with("at ./src/") || line.contains("/verif/harness/src/") {
                    h = true;
                    break;
                }
            }
            h
        };
        PANIC.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some((format!("panicked at {}: {}", loc, msg), harness));
            }
        });
    }));
}

pub enum Outcome {
    Held,
    Violated(String),
    Harness(String),
}

pub fn guarded<F: FnOnce() -> V>(f: F) -> Outcome {
    PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(())) => Outcome::Held,
        Ok(Err(m)) => Outcome::Violated(m),
        Err(_) => {
            let (m, h) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or(("panicked".into(), true));
            if h {
                Outcome::Harness(m)
            } else {
                Outcome::Violated(m)
            }
        }
    }
}

/// Runs a sweep over `0..n` on all cores, calling `start` for each stretch; the first violation counts.
pub fn sweep<F: FnMut(u32) -> V>(n: u32, start: impl Fn() -> F + Sync) -> V {
    sweep_by(2048, n, start)
}

pub fn sweep_by<F: FnMut(u32) -> V>(step: u32, n: u32, start: impl Fn() -> F + Sync) -> V {
    let next = std::sync::atomic::AtomicU32::new(0);
    let bad: Mutex<Option<Outcome>> = Mutex::new(None);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let a = next.fetch_add(step, Ordering::Relaxed);
                if a >= n || bad.lock().unwrap().is_some() {
                    return;
                }
                let o = guarded(|| (a..n.min(a + step)).try_for_each(start()));
                if !matches!(o, Outcome::Held) {
                    *bad.lock().unwrap() = Some(o);
                    return;
                }
            });
        }
    });
    match bad.into_inner().unwrap() {
        None | Some(Outcome::Held) => Ok(()),
        Some(Outcome::Violated(m)) => Err(m),
        Some(Outcome::Harness(m)) => panic!("{}", m),
    }
}

/// Runs code under test that may panic; the panic becomes the error message.
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(t) => Ok(t),
        Err(e) => {
            let (m, h) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or(("panicked".into(), true));
            if h {
                std::panic::resume_unwind(e)
            }
            Err(format!("{} {}", what, m))
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Environment

pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("MON_ROOT").unwrap_or_else(|_| "/verif".into()))
}
fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}
pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}
fn scratch() -> PathBuf {
    let d = root().join("evidence/tmp");
    let _ = fs::create_dir_all(&d);
    d
}
fn prop_num(id: &str) -> u64 {
    id.bytes().fold(0, |a, b| a * 257 + b as u64)
}
fn case_seed(id: &str, seed: u64, i: u64) -> u64 {
    mix(&[seed, prop_num(id), i])
}

const CPU_LIMIT_MS: u64 = 30_000;
/// Calibrated so that a quick run takes well under a minute of its own.
fn wall_cap(thorough: bool) -> Duration {
    let s = std::env::var("MON_WALL").ok().and_then(|s| s.parse().ok());
    Duration::from_secs(s.unwrap_or(if thorough { 600 } else { 90 }))
}

fn thread_cpu_ms(tid: u64) -> Option<u64> {
    let s = fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    // utime and stime are fields 14 and 15; `rest` starts at field 3
    let t: u64 = f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?;
    Some(t * 10)
}
fn my_tid() -> u64 {
    fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().and_then(|n| n.to_str()).and_then(|s| s.parse().ok()))
        .unwrap_or(0)
}

// ---------------------------------------------------------------------------------------------
// Worker process

#[derive(Default)]
struct Total {
    evals: u64,
    cases: u64,
    counts: BTreeMap<&'static str, u64>,
    maxima: BTreeMap<&'static str, u64>,
    hashes: HashSet<u64>,
    samples: Vec<String>,
}

struct Slot {
    tid: AtomicU64,
    /// CPU milliseconds of the thread when its case started; 0 when idle.
    start: AtomicU64,
}

pub fn worker(c: &'static Check, out: &str) -> i32 {
    install_hook();
    let th = thorough();
    let n = std::env::var("MON_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(if th { c.thorough } else { c.quick });
    let threads = std::env::var("MON_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
    let seed = seed();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let bad: Mutex<Option<(bool, u64, String, String)>> = Mutex::new(None);
    let total = Mutex::new(Total::default());
    let slots: Vec<Slot> = (0..threads)
        .map(|_| Slot {
            tid: AtomicU64::new(0),
            start: AtomicU64::new(0),
        })
        .collect();
    let slot_file = fs::OpenOptions::new()
        .create(true)
        .write(true)
        .truncate(true)
        .open(format!("{}.slots", out))
        .expect("slot file");
    let _ = slot_file.write_all_at(&vec![0u8; threads * 8], 0);
    let deadline = Instant::now() + wall_cap(th);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (next, stop, bad, total, slots, slot_file) = (&next, &stop, &bad, &total, &slots, &slot_file);
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(s, move || {
                    slots[t].tid.store(my_tid(), Ordering::SeqCst);
                    let mut mine = Total::default();
                    while !stop.load(Ordering::Relaxed) {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n || (i % 16 == 0 && Instant::now() > deadline) {
                            break;
                        }
                        let cs = case_seed(c.id, seed, i);
                        let _ = slot_file.write_all_at(&cs.to_le_bytes(), t as u64 * 8);
                        let cpu = thread_cpu_ms(slots[t].tid.load(Ordering::Relaxed)).unwrap_or(0);
                        slots[t].start.store(cpu + 1, Ordering::SeqCst);
                        let mut ctx = Ctx::new(cs, th);
                        let o = guarded(|| (c.case)(&mut ctx));
                        slots[t].start.store(0, Ordering::SeqCst);
                        let ms = thread_cpu_ms(slots[t].tid.load(Ordering::Relaxed)).unwrap_or(cpu) - cpu;
                        if ms > 1000 {
                            // Cases this slow are worth a look at the oracle
                            eprintln!("note: case {:016x} took {} ms", cs, ms);
                        }
                        ctx.max("slowest_case_cpu_ms", ms);
                        mine.cases += 1;
                        mine.evals += ctx.evals;
                        for (k, v) in &ctx.counts {
                            *mine.counts.entry(k).or_insert(0) += v;
                        }
                        for (k, v) in &ctx.maxima {
                            let e = mine.maxima.entry(k).or_insert(0);
                            *e = (*e).max(*v);
                        }
                        if mine.hashes.len() < 2_000_000 {
                            mine.hashes.extend(ctx.hashes.iter());
                        }
                        if i < 400 && i % 57 == 0 {
                            mine.samples.push(format!("case {:016x}: {}", cs, crate::model::short(&ctx.input, 1500)));
                        }
                        let (h, m) = match o {
                            Outcome::Held => continue,
                            Outcome::Violated(m) => (false, m),
                            Outcome::Harness(m) => (true, m),
                        };
                        stop.store(true, Ordering::Relaxed);
                        let mut b = bad.lock().unwrap();
                        if b.as_ref().map_or(true, |b| b.0 && !h) {
                            *b = Some((h, cs, m, ctx.input.clone()));
                        }
                        break;
                    }
                    let _ = slot_file.write_all_at(&0u64.to_le_bytes(), t as u64 * 8);
                    let mut tot = total.lock().unwrap();
                    tot.evals += mine.evals;
                    tot.cases += mine.cases;
                    for (k, v) in mine.counts {
                        *tot.counts.entry(k).or_insert(0) += v;
                    }
                    for (k, v) in mine.maxima {
                        let e = tot.maxima.entry(k).or_insert(0);
                        *e = (*e).max(v);
                    }
                    tot.hashes.extend(mine.hashes);
                    tot.samples.extend(mine.samples);
                })
                .expect("spawn");
        }
        // Hang monitor: CPU time of the current case of each thread
        let (slots, done) = (&slots, &done);
        let watch = s.spawn(move || {
            while !done.load(Ordering::Relaxed) {
                std::thread::park_timeout(Duration::from_millis(500));
                for sl in slots {
                    let st = sl.start.load(Ordering::SeqCst);
                    if st == 0 {
                        continue;
                    }
                    if let Some(now) = thread_cpu_ms(sl.tid.load(Ordering::SeqCst)) {
                        if sl.start.load(Ordering::SeqCst) == st && now + 1 > st + CPU_LIMIT_MS {
                            unsafe { _exit(4) }
                        }
                    }
                }
            }
        });
        // Wait for the workers through the total: each thread clears its slot when finished
        let (next, stop) = (&next, &stop);
        s.spawn(move || {
            loop {
                std::thread::sleep(Duration::from_millis(20));
                let finished = (next.load(Ordering::Relaxed) >= n || stop.load(Ordering::Relaxed) || Instant::now() > deadline)
                    && slots.iter().all(|s| s.start.load(Ordering::SeqCst) == 0 && s.tid.load(Ordering::SeqCst) != 0);
                if finished {
                    done.store(true, Ordering::Relaxed);
                    watch.thread().unpark();
                    return;
                }
            }
        });
    });
    let tot = total.into_inner().unwrap();
    let bad = bad.into_inner().unwrap();
    let j = serde_json::json!({
        "cases": tot.cases,
        "evaluations": tot.evals,
        "distinct": tot.hashes.len(),
        "counts": tot.counts,
        "maxima": tot.maxima,
        "samples": tot.samples.into_iter().take(6).collect::<Vec<_>>(),
        "bad": bad.as_ref().map(|(h, s, m, i)| serde_json::json!({"harness": h, "case": format!("{:016x}", s), "message": m, "input": i})),
    });
    fs::write(out, j.to_string()).expect("result file");
    0
}

/// One case, alone in its process. Exit 0 held, 1 violated, 2 harness error, 4/5 limits.
pub fn single(c: &'static Check, cs: u64, out: &str) -> i32 {
    install_hook();
    let th = thorough();
    let tid = AtomicU64::new(0);
    let tid = &*Box::leak(Box::new(tid));
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let t = tid.load(Ordering::SeqCst);
        if t != 0 && thread_cpu_ms(t).map_or(false, |ms| ms > CPU_LIMIT_MS) {
            unsafe { _exit(4) }
        }
    });
    let out = out.to_string();
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            tid.store(my_tid(), Ordering::SeqCst);
            let mut ctx = Ctx::new(cs, th);
            let o = guarded(|| (c.case)(&mut ctx));
            let (code, m) = match o {
                Outcome::Held => (0, String::new()),
                Outcome::Violated(m) => (1, m),
                Outcome::Harness(m) => (2, m),
            };
            if !out.is_empty() {
                let _ = fs::write(&out, format!("{}\ninput: {}", m, ctx.input));
            } else {
                println!("{}\ninput: {}", m, ctx.input);
            }
            code
        })
        .expect("spawn")
        .join()
        .unwrap_or(2)
}

pub fn probe(c: &'static Check, name: &str, out: &str) -> i32 {
    install_hook();
    // The main thread: the stack a program normally has
    let f = match c.probes.iter().find(|p| p.0 == name) {
        Some(p) => p.1,
        None => return 2,
    };
    let tid = my_tid();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        if thread_cpu_ms(tid).map_or(false, |ms| ms > CPU_LIMIT_MS * 2) {
            unsafe { _exit(4) }
        }
    });
    let (code, m) = match guarded(f) {
        Outcome::Held => (0, String::new()),
        Outcome::Violated(m) => (1, m),
        Outcome::Harness(m) => (2, m),
    };
    let _ = fs::write(out, m);
    code
}

// ---------------------------------------------------------------------------------------------
// Parent process

fn wait(mut ch: std::process::Child, limit: Duration) -> Option<ExitStatus> {
    let end = Instant::now() + limit;
    loop {
        match ch.try_wait() {
            Ok(Some(s)) => return Some(s),
            Ok(None) => {}
            Err(_) => return None,
        }
        if Instant::now() > end {
            let _ = ch.kill();
            let _ = ch.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}

fn me() -> Command {
    let mut c = Command::new(std::env::current_exe().expect("own path"));
    c.stdin(Stdio::null());
    c
}

fn describe_status(s: &ExitStatus) -> String {
    match (s.code(), s.signal()) {
        (Some(4), _) => format!("did not finish within {} s of CPU time", CPU_LIMIT_MS / 1000),
        (Some(77), _) => "AddressSanitizer reported a memory error".into(),
        (Some(5), _) => "used more than 2 GiB of memory".into(),
        (Some(c), _) => format!("exit status {}", c),
        (_, Some(6)) => "aborted (SIGABRT; stack overflow or abort)".into(),
        (_, Some(11)) => "crashed (SIGSEGV; stack overflow)".into(),
        (_, Some(n)) => format!("killed by signal {}", n),
        _ => "unknown end".into(),
    }
}

fn known(id: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    if let Ok(s) = fs::read_to_string(root().join("known_findings.txt")) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("known: ") {
                let mut it = r.splitn(3, ' ');
                let p = it.next().unwrap_or("");
                let k = it.next().unwrap_or("");
                let what = it.next().unwrap_or("");
                if p == format!("property={}", id) {
                    if let Some(k) = k.strip_prefix("probe=") {
                        v.push((k.to_string(), what.to_string()));
                    }
                }
            }
        }
    }
    v
}

/// Kinds of builds the thorough tier uses beside the usual one, and where check.sh says they are
const OTHER_BUILDS: [(&str, &str); 2] = [("release", "MON_RELEASE_BIN"), ("asan", "MON_ASAN_BIN")];

struct Finding {
    replay: String,
    message: String,
}

pub fn run(c: &'static Check) -> i32 {
    let t0 = Instant::now();
    let th = thorough();
    let tier = if th { "thorough" } else { "quick" };
    let tmp = scratch().join(format!("{}-{}", c.id, std::process::id()));
    let tmp = tmp.to_string_lossy().to_string();
    let mut findings: Vec<Finding> = vec![];
    let mut inconclusive: Option<String> = None;
    let knowns = known(c.id);
    let mut known_hit = vec![];
    let mut probes_ok = vec![];

    let write_replay = |kind: &str, key: &str, message: &str, input: &str| -> String {
        let dir = root().join("evidence/replay");
        let _ = fs::create_dir_all(&dir);
        let p = dir.join(format!("{}-{}-{}.json", c.id, kind, key));
        let j = serde_json::json!({"property": c.id, "kind": kind, "key": key, "tier": tier, "seed": seed(), "message": message, "input": input});
        let _ = fs::write(&p, serde_json::to_string_pretty(&j).unwrap());
        p.to_string_lossy().to_string()
    };

    for (name, _) in c.probes {
        let out = format!("{}.probe", tmp);
        let _ = fs::remove_file(&out);
        let st = me().args(["probe", c.id, name, &out]).stderr(Stdio::null()).spawn().ok().and_then(|ch| wait(ch, Duration::from_secs(300)));
        let msg = fs::read_to_string(&out).unwrap_or_default();
        let _ = fs::remove_file(&out);
        let fail = match st {
            None => {
                inconclusive = Some(format!("probe {} did not end", name));
                continue;
            }
            Some(s) if s.code() == Some(0) => {
                probes_ok.push(*name);
                continue;
            }
            Some(s) if s.code() == Some(1) => msg,
            Some(s) if s.code() == Some(2) || s.signal() == Some(9) => {
                inconclusive = Some(format!("probe {}: {} {}", name, describe_status(&s), msg));
                continue;
            }
            Some(s) => describe_status(&s),
        };
        if let Some((_, what)) = knowns.iter().find(|(k, _)| k == name) {
            println!("KNOWN-FINDING: property={} {} ({})", c.id, what, fail);
            known_hit.push(name.to_string());
        } else {
            let message = format!("probe {}: {}", name, fail);
            let replay = write_replay("probe", name, &message, name);
            findings.push(Finding { replay, message });
        }
    }

    let mut result = serde_json::Value::Null;
    // The thorough tier runs a part of the workload once more without debug assertions and overflow
    // checks, as users' release builds are, and under AddressSanitizer
    let mut others = serde_json::json!({"release": null, "asan": null});
    let mut bins = vec![("case", None)];
    for (kind, var) in OTHER_BUILDS {
        if let Some(b) = std::env::var(var).ok().filter(|_| th) {
            bins.push((kind, Some(b)));
        }
    }
    for (kind, bin) in &bins {
        let (kind, bin) = (*kind, bin.as_deref());
        if !findings.is_empty() || inconclusive.is_some() {
            break;
        }
        let me = || match bin {
            None => me(),
            Some(b) => {
                let mut m = Command::new(b);
                m.stdin(Stdio::null());
                let (part, offset) = if kind == "asan" { (c.quick / 2, 1_000_003) } else { (c.quick * 2, 2_000_003) };
                m.env("MON_CASES", part.to_string()).env("VERIF_SEED", (seed() + offset).to_string());
                m.env("ASAN_OPTIONS", "detect_leaks=0:exitcode=77");
                m
            }
        };
        let out = format!("{}.result", tmp);
        let limit = wall_cap(th) + Duration::from_secs(120);
        let st = me().args(["worker", c.id, &out]).spawn().ok().and_then(|ch| wait(ch, limit));
        match st {
            Some(s) if s.code() == Some(0) => {
                let got: serde_json::Value = fs::read_to_string(&out).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or_default();
                let bad = got["bad"].clone();
                if bin.is_some() {
                    others[kind] = serde_json::json!({"cases": got["cases"], "evaluations": got["evaluations"], "distinct_nontrivial": got["distinct"], "observed": got["counts"]});
                } else {
                    result = got;
                }
                if !bad.is_null() {
                    let (m, case, input) = (
                        bad["message"].as_str().unwrap_or(""),
                        bad["case"].as_str().unwrap_or(""),
                        bad["input"].as_str().unwrap_or(""),
                    );
                    if bad["harness"].as_bool() == Some(true) {
                        inconclusive = Some(format!("harness error in case {}: {}\ninput: {}", case, m, input));
                    } else {
                        let replay = write_replay(kind, case, m, input);
                        findings.push(Finding {
                            replay,
                            message: format!("{}\ninput: {}", m, crate::model::short(input, 4000)),
                        });
                    }
                }
            }
            other => {
                // A crash, hang or runaway allocation: find the case that does it alone
                let what = other.map(|s| describe_status(&s)).unwrap_or("did not end".into());
                let slots = fs::read(format!("{}.slots", out)).unwrap_or_default();
                let mut runs = vec![];
                for ch in slots.chunks_exact(8) {
                    let cs = u64::from_le_bytes(ch.try_into().unwrap());
                    if cs != 0 {
                        let o = format!("{}.{:016x}", tmp, cs);
                        if let Ok(child) = me().args(["single", c.id, &format!("{:016x}", cs), &o]).stderr(Stdio::null()).spawn() {
                            runs.push((cs, o, child));
                        }
                    }
                }
                for (cs, o, child) in runs {
                    let st = wait(child, Duration::from_secs(240));
                    let msg = fs::read_to_string(&o).unwrap_or_default();
                    let _ = fs::remove_file(&o);
                    let m = match st {
                        Some(s) if matches!(s.code(), Some(0) | Some(2)) || s.signal() == Some(9) => continue,
                        None => continue,
                        Some(s) if s.code() == Some(1) => msg,
                        Some(s) => describe_status(&s),
                    };
                    let key = format!("{:016x}", cs);
                    let replay = write_replay(kind, &key, &m, "re-run the case to see its input");
                    findings.push(Finding {
                        replay,
                        message: format!("case {}: {}", key, m),
                    });
                    break;
                }
                if findings.is_empty() {
                    inconclusive = Some(format!("worker {} and no case repeats it", what));
                }
            }
        }
        let _ = fs::remove_file(format!("{}.slots", out));
        let _ = fs::remove_file(&out);
    }

    if findings.is_empty() && inconclusive.is_none() {
        let missing: Vec<&&str> = c.need.iter().filter(|k| result["counts"][**k].as_u64().unwrap_or(0) == 0).collect();
        if !missing.is_empty() {
            inconclusive = Some(format!("observed too little: never saw {:?}", missing));
        }
        if result["distinct"].as_u64().unwrap_or(0) < 50 && std::env::var("MON_CASES").is_err() {
            inconclusive = Some("observed too few distinct cases".into());
        }
    }

    let wall = t0.elapsed().as_secs_f64();
    let ev = serde_json::json!({
        "property": c.id,
        "tier": tier,
        "seed": seed(),
        "level": "exploration",
        "coverage": {
            "evaluations": result["evaluations"].as_u64().unwrap_or(0),
            "distinct_nontrivial": result["distinct"].as_u64().unwrap_or(0),
            "rule": c.rule,
            "samples": if result["samples"].is_array() { result["samples"].clone() } else { serde_json::json!([]) },
            "generated_documents_or_programs": result["cases"].as_u64().unwrap_or(0),
            "observed": result["counts"],
            "maxima": result["maxima"],
            "probes_held": probes_ok,
            "known_findings_seen": known_hit,
            "cpu_limit_s": CPU_LIMIT_MS / 1000,
            "inconclusive": inconclusive,
            "address_sanitizer": others["asan"],
            "release_build": others["release"],
        },
        "assumptions": c.assumptions,
        "wall_s": wall,
        "violations": findings.len(),
    });
    let dir = root().join("evidence");
    let _ = fs::create_dir_all(&dir);
    let _ = fs::write(dir.join(format!("{}.json", c.id)), serde_json::to_string_pretty(&ev).unwrap() + "\n");

    for f in &findings {
        println!("{}", f.message);
        println!("VIOLATION property={} replay={}", c.id, f.replay);
    }
    let _ = std::io::stdout().flush();
    if !findings.is_empty() {
        return 1;
    }
    if let Some(m) = inconclusive {
        eprintln!("INCONCLUSIVE property={}: {}", c.id, m);
        return 2;
    }
    println!(
        "held property={} tier={} cases={} evaluations={} distinct={} wall={:.1}s",
        c.id, tier, result["cases"], result["evaluations"], result["distinct"], wall
    );
    0
}

pub fn replay(path: &str, find: impl Fn(&str) -> Option<&'static Check>) -> i32 {
    let j: serde_json::Value = match fs::read_to_string(path).ok().and_then(|s| serde_json::from_str(&s).ok()) {
        Some(j) => j,
        None => {
            eprintln!("cannot read {}", path);
            return 2;
        }
    };
    let id = j["property"].as_str().unwrap_or("");
    let key = j["key"].as_str().unwrap_or("");
    if find(id).is_none() {
        return 2;
    }
    let other = OTHER_BUILDS.iter().find(|(k, _)| j["kind"] == *k).and_then(|(_, var)| std::env::var(var).ok());
    let mut cmd = match other {
        Some(b) => Command::new(b),
        None => me(),
    };
    cmd.env("VERIF_TIER", j["tier"].as_str().unwrap_or("quick"));
    let out = scratch().join("replay.out").to_string_lossy().to_string();
    if j["kind"] == "probe" {
        cmd.args(["probe", id, key, &out]);
    } else {
        cmd.args(["single", id, key, &out]);
    }
    let st = cmd.spawn().ok().and_then(|ch| wait(ch, Duration::from_secs(300)));
    println!("{}", fs::read_to_string(&out).unwrap_or_default());
    match st {
        Some(s) if s.code() == Some(0) => {
            println!("held");
            0
        }
        Some(s) if s.code() == Some(2) => 2,
        Some(s) => {
            println!("{}", describe_status(&s));
            println!("VIOLATION property={} replay={}", id, path);
            1
        }
        None => 2,
    }
}

//! A small property-based testing engine.
//!
//! Every generated case is a function of a *choice tape*: a list of bounded integers. Fresh cases
//! draw the choices from a seeded PRNG and record them; a replay reads them back. Shrinking works
//! on the tape (delete chunks, zero, halve, decrement), so it applies to every generator, however
//! the choices depend on each other. Generators are written so that 0 is the simplest choice.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const VERIF: &str = "/verif";

/// Open findings that were met.
static KNOWN: std::sync::Mutex<std::collections::BTreeSet<&'static str>> = std::sync::Mutex::new(std::collections::BTreeSet::new());

// ---------------------------------------------------------------------------------------------
// PRNG: splitmix64 seeding xoshiro256**
// ---------------------------------------------------------------------------------------------
#[derive(Clone)]
pub struct Rng([u64; 4]);

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        Rng([
            splitmix(&mut s),
            splitmix(&mut s),
            splitmix(&mut s),
            splitmix(&mut s),
        ])
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
}

pub fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

// ---------------------------------------------------------------------------------------------
// Choice source + per-case context
// ---------------------------------------------------------------------------------------------
pub struct Ctx {
    tape: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
    pub verbose: bool,
    pub notes: Vec<String>,
    pub nontrivial: bool,
    pub discarded: bool,
    pub tags: Vec<&'static str>,
    /// Extra evaluations made by this case, beyond the one the engine counts.
    pub extra_evals: u64,
}

impl Ctx {
    pub fn fresh(seed: u64) -> Self {
        Self::make(vec![], Some(Rng::new(seed)))
    }
    pub fn replay(tape: Vec<u64>) -> Self {
        Self::make(tape, None)
    }
    fn make(tape: Vec<u64>, rng: Option<Rng>) -> Self {
        Ctx {
            tape,
            pos: 0,
            rng,
            verbose: false,
            notes: vec![],
            nontrivial: false,
            discarded: false,
            tags: vec![],
            extra_evals: 0,
        }
    }
    /// A choice in `0..n`.
    pub fn u(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        let n = n.max(1) as u64;
        let v = if let Some(rng) = &mut self.rng {
            let v = rng.next() % n;
            self.tape.push(v);
            v
        } else if self.pos < self.tape.len() {
            self.tape[self.pos] % n
        } else {
            0
        };
        self.pos += 1;
        v as usize
    }
    /// `lo..=hi`
    pub fn int(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.u(hi - lo + 1)
    }
    /// true with probability num/den; shrinks to false.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.u(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.u(xs.len());
        &xs[i]
    }
    /// Index chosen with the given weights (the first is the simplest).
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let total: usize = w.iter().sum();
        let mut v = self.u(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        unreachable!()
    }
    /// A list of `min..=max` items; each further item is drawn with probability num/den.
    pub fn list<T>(
        &mut self,
        min: usize,
        max: usize,
        num: usize,
        den: usize,
        mut f: impl FnMut(&mut Ctx) -> T,
    ) -> Vec<T> {
        let mut out = vec![];
        while out.len() < max && (out.len() < min || self.chance(num, den)) {
            out.push(f(self));
        }
        out
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            self.notes.push(f());
        }
    }
    pub fn tag(&mut self, t: &'static str) {
        if !self.tags.contains(&t) {
            self.tags.push(t);
        }
    }
    /// A violation that is listed as an open finding is reported as such; any other is an error.
    pub fn known(&mut self, id: &str, what: &'static str, error: String) -> Res {
        static LISTED: std::sync::OnceLock<String> = std::sync::OnceLock::new();
        let l = LISTED.get_or_init(|| std::fs::read_to_string(format!("{VERIF}/known-findings.txt")).unwrap_or_default());
        if !l.lines().any(|x| x == format!("open: property={id} {what}")) {
            return Err(error);
        }
        KNOWN.lock().unwrap().insert(what);
        self.discarded = true;
        Ok(())
    }
    pub fn discard(&mut self) -> Res {
        self.discarded = true;
        Ok(())
    }
    fn used(&self) -> &[u64] {
        &self.tape[..self.pos.min(self.tape.len())]
    }
}

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

// ---------------------------------------------------------------------------------------------
// Properties
// ---------------------------------------------------------------------------------------------
pub type CaseFn = fn(&mut Ctx) -> Res;

/// One generated-input check of a property. A property may have several.
pub struct Part {
    pub name: &'static str,
    pub case: CaseFn,
    pub quick: u64,
    pub thorough: u64,
    /// Worker threads (1 for checks of process-global state).
    pub threads: usize,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub parts: Vec<Part>,
    pub assumptions: &'static [&'static str],
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
    }));
}

/// Runs a closure, turning a panic into an `Err`.
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        let p = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
        format!("{what} panicked: {p}")
    })
}

fn run_case(f: CaseFn, ctx: &mut Ctx) -> Res {
    match catch_unwind(AssertUnwindSafe(|| f(ctx))) {
        Ok(r) => r,
        Err(_) => Err(format!(
            "panic: {}",
            LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()
        )),
    }
}

struct Failure {
    part: usize,
    index: u64,
    tape: Vec<u64>,
    msg: String,
}

#[derive(Default)]
struct Stats {
    evals: u64,
    discarded: u64,
    nontrivial: HashSet<u64>,
    tags: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
    /// wall time, part and index of the slowest case
    slowest: (Duration, &'static str, u64),
}

fn save_pending(part: &str, tape: &[u64], msg: &str, notes: &[String]) {
    if let Ok(d) = std::env::var("SDSV_STATE") {
        let v = serde_json::json!({"part": part, "tape": tape, "message": msg, "input": notes});
        let _ = std::fs::write(format!("{d}/pending.json"), v.to_string());
    }
}

fn shrink(part: &Part, fail: &mut Failure, budget: Duration) -> u64 {
    let f = part.case;
    let t0 = Instant::now();
    save_pending(part.name, &fail.tape, &fail.msg, &[]);
    std::thread::spawn(move || {
        // a shrinking candidate that hangs: give up, the parent reports what we have
        std::thread::sleep(budget + Duration::from_secs(20));
        std::process::abort();
    });
    let mut runs = 0u64;
    let mut best = fail.tape.clone();
    let mut try_tape = |cand: &[u64], msg: &mut String, best: &mut Vec<u64>| -> bool {
        if t0.elapsed() > budget {
            return false;
        }
        runs += 1;
        let mut ctx = Ctx::replay(cand.to_vec());
        ctx.verbose = true;
        match run_case(f, &mut ctx) {
            Err(m) => {
                let used = ctx.used().to_vec();
                save_pending(part.name, cand, &m, &ctx.notes);
                *msg = m;
                // keep normalised tape
                *best = if used.len() <= cand.len() { used } else { cand.to_vec() };
                true
            }
            Ok(()) => false,
        }
    };
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                let mut cand = best.clone();
                cand.drain(i..(i + size).min(best.len()));
                if !try_tape(&cand, &mut fail.msg, &mut best) {
                    i += size.max(1);
                }
                if t0.elapsed() > budget {
                    break;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero chunks
        for size in [8usize, 4, 2, 1] {
            let mut i = 0;
            while i < best.len() {
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|x| *x != 0) {
                    let mut cand = best.clone();
                    cand[i..end].iter_mut().for_each(|x| *x = 0);
                    try_tape(&cand, &mut fail.msg, &mut best);
                }
                i += size;
            }
        }
        // minimise values
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0u64;
            while i < best.len() && lo < best[i] {
                let mid = lo + (best[i] - lo) / 2;
                let mut cand = best.clone();
                cand[i] = mid;
                if !try_tape(&cand, &mut fail.msg, &mut best) {
                    lo = mid + 1;
                }
                if t0.elapsed() > budget {
                    break;
                }
            }
            i += 1;
        }
        // delete one choice while decrementing another (list lengths)
        if best == before || t0.elapsed() > budget {
            break;
        }
    }
    fail.tape = best;
    runs
}

/// Cases that are being run right now, one 16-byte slot per worker in a file, so that a parent
/// process can tell which cases were running when this one died.
struct Running {
    file: Option<std::fs::File>,
    /// per worker: the case, and when it started
    slots: Mutex<BTreeMap<usize, (u64, Instant)>>,
    /// per worker: where the system tells the CPU time of the thread
    stat: Mutex<BTreeMap<usize, std::path::PathBuf>>,
}

/// CPU seconds used by a thread.
fn thread_cpu(stat: &std::path::Path) -> Option<f64> {
    let s = std::fs::read_to_string(stat).ok()?;
    let f: Vec<&str> = s[s.rfind(')')? + 2..].split(' ').collect();
    Some((f[11].parse::<f64>().ok()? + f[12].parse::<f64>().ok()?) / 100.0)
}

impl Running {
    fn new() -> Self {
        let file = std::env::var("SDSV_STATE").ok().and_then(|d| {
            std::fs::OpenOptions::new()
                .create(true)
                .truncate(true)
                .write(true)
                .open(format!("{d}/running"))
                .ok()
        });
        Running { file, slots: Mutex::new(BTreeMap::new()), stat: Mutex::new(BTreeMap::new()) }
    }
    fn register(&self, w: usize) {
        let me = std::fs::read_link("/proc/thread-self").unwrap_or_default();
        self.stat.lock().unwrap().insert(w, std::path::Path::new("/proc").join(me).join("stat"));
    }
    /// Whether a case computes for too long, or waits for twice as long without computing. Time that
    /// other processes take does not count. `seen`: per worker, a case and the CPU time at its start.
    fn stuck(&self, seen: &mut BTreeMap<usize, (u64, f64)>) -> bool {
        let slots = self.slots.lock().unwrap().clone();
        let stat = self.stat.lock().unwrap().clone();
        slots.iter().any(|(w, (i, since))| {
            let wall = since.elapsed();
            if wall < Duration::from_secs(1) {
                return false;
            }
            let Some(cpu) = stat.get(w).and_then(|f| thread_cpu(f)) else { return wall > 5 * CASE_LIMIT };
            let first = seen.entry(*w).or_insert((*i, cpu));
            if first.0 != *i {
                *first = (*i, cpu);
            }
            let used = cpu - first.1;
            used > CASE_LIMIT.as_secs_f64() || (used < 1.0 && wall > 2 * CASE_LIMIT) || wall > 5 * CASE_LIMIT
        })
    }
    fn put(&self, w: usize, part: u64, index: Option<u64>) {
        use std::os::unix::fs::FileExt;
        if let Some(f) = &self.file {
            let mut b = [0u8; 16];
            b[..8].copy_from_slice(&part.to_le_bytes());
            b[8..].copy_from_slice(&index.map_or(0, |i| i + 1).to_le_bytes());
            let _ = f.write_at(&b, w as u64 * 16);
        }
        let mut s = self.slots.lock().unwrap();
        match index {
            Some(i) => {
                s.insert(w, (i, Instant::now()));
            }
            None => {
                s.remove(&w);
            }
        }
    }
}

pub fn case_seed(seed: u64, id: &str, part: &str, index: u64) -> u64 {
    let mut s = seed ^ fnv(id).rotate_left(17) ^ fnv(part).rotate_left(31);
    let a = splitmix(&mut s);
    let mut t = a ^ index.wrapping_mul(0x9E3779B97F4A7C15);
    splitmix(&mut t)
}

const CASE_LIMIT: Duration = Duration::from_secs(45);

fn write_replay(id: &str, part: &str, tape: &[u64], msg: &str, notes: &[String], extra: &str) -> String {
    let dir = std::env::var("VERIF_REPLAY_DIR").unwrap_or_else(|_| format!("{VERIF}/out/replays"));
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{id}-{part}-{:016x}.json", {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        tape.hash(&mut h);
        h.finish()
    });
    let v = serde_json::json!({
        "property": id, "part": part, "tape": tape, "message": msg, "input": notes, "extra": extra,
        "replay_with": format!("bash {VERIF}/run.sh replay {path}"),
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    path
}

enum Died {
    No,
    Signal(i32),
}

/// Re-runs one case alone in a child process with a CPU-time and a memory limit.
fn rerun_alone(id: &str, part: &str, index: u64, seed: u64) -> Died {
    let exe = std::env::current_exe().unwrap();
    let out = std::process::Command::new("bash")
        .arg("-c")
        .arg(format!(
            "ulimit -t 60; ulimit -v 12000000; ulimit -c 0; exec {} case {} {} {} {}",
            exe.display(),
            id,
            part,
            index,
            seed
        ))
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status();
    use std::os::unix::process::ExitStatusExt;
    match out.ok().and_then(|s| s.signal()) {
        Some(x) => Died::Signal(x),
        None => Died::No,
    }
}

/// Runs the property in a child process, so that a crash, a hang or a memory blow-up of the code
/// under test still gets an answer.
pub fn supervise(p: &Prop, tier: &str, seed: u64, scale: f64) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let t0 = Instant::now();
    let dir = format!("{VERIF}/out/state-{}", std::process::id());
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).expect("state dir");
    let exe = std::env::current_exe().unwrap();
    let status = std::process::Command::new("bash")
        .arg("-c")
        .arg(format!("ulimit -v 26000000; ulimit -c 0; exec {} run-inner {} {tier}", exe.display(), p.id))
        .env("SDSV_STATE", &dir)
        .env("VERIF_SEED", seed.to_string())
        .env("SDSV_SCALE", scale.to_string())
        .status()
        .expect("spawn");
    let cleanup = |code: i32| {
        let _ = std::fs::remove_dir_all(&dir);
        code
    };
    let Some(sig) = status.signal() else {
        return cleanup(status.code().unwrap_or(2));
    };
    // The child died. If it was shrinking a failure, report what it had.
    let mut violation: Option<(String, String)> = None;
    if let Ok(b) = std::fs::read(format!("{dir}/pending.json")) {
        if let Ok(v) = serde_json::from_slice::<serde_json::Value>(&b) {
            let tape: Vec<u64> = v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
            let notes: Vec<String> =
                v["input"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
            let msg = v["message"].as_str().unwrap_or("").to_string();
            let path = write_replay(p.id, v["part"].as_str().unwrap(), &tape, &msg, &notes, "shrinking was cut short");
            violation = Some((msg, path));
        }
    }
    if violation.is_none() {
        let b = std::fs::read(format!("{dir}/running")).unwrap_or_default();
        for c in b.chunks_exact(16) {
            let part = u64::from_le_bytes(c[..8].try_into().unwrap()) as usize;
            let index = u64::from_le_bytes(c[8..].try_into().unwrap());
            if index == 0 || part >= p.parts.len() {
                continue;
            }
            let (part, index) = (&p.parts[part], index - 1);
            if let Died::Signal(x) = rerun_alone(p.id, part.name, index, seed) {
                let what = match x {
                    9 | 24 => "does not terminate (60 s of CPU time used up)",
                    11 => "crashes (stack overflow or invalid memory access)",
                    6 => "aborts (stack overflow or memory exhausted)",
                    _ => "dies",
                };
                let msg = format!("case {index} of part {} {what}, signal {x}", part.name);
                let path = write_replay(
                    p.id,
                    part.name,
                    &[],
                    &msg,
                    &[],
                    &format!("{} case {} {} {} {}", exe.display(), p.id, part.name, index, seed),
                );
                violation = Some((msg, path));
                break;
            }
        }
    }
    let Some((msg, path)) = violation else {
        // the machine, not the code: once more
        if t0.elapsed() < Duration::from_secs(400) && std::env::var("SDSV_AGAIN").is_err() {
            eprintln!("{}: the check died with signal {sig}, and no single case reproduces it: once more", p.id);
            cleanup(0);
            std::env::set_var("SDSV_AGAIN", "1");
            return supervise(p, tier, seed, scale);
        }
        eprintln!("{}: the check died with signal {sig}, and no single case reproduces it: no answer", p.id);
        return cleanup(2);
    };
    println!("{}: {msg}", p.id);
    println!("VIOLATION property={} replay={}", p.id, path);
    let ev = serde_json::json!({
        "property": p.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": p.rule, "samples": [msg]},
        "violations": [{"message": msg, "replay": path}],
        "wall_s": t0.elapsed().as_secs_f64(),
    });
    let _ = std::fs::create_dir_all(format!("{VERIF}/evidence"));
    let _ = std::fs::write(format!("{VERIF}/evidence/{}.json", p.id), ev.to_string());
    cleanup(1)
}

pub fn run_single_case(p: &Prop, part: &str, index: u64, seed: u64) -> i32 {
    let part = p.parts.iter().find(|x| x.name == part).expect("part");
    let mut ctx = Ctx::fresh(case_seed(seed, p.id, part.name, index));
    ctx.verbose = true;
    let r = run_case(part.case, &mut ctx);
    for n in &ctx.notes {
        println!("  {n}");
    }
    match r {
        Ok(()) => 0,
        Err(m) => {
            println!("{m}");
            1
        }
    }
}

pub fn replay(p: &Prop, part: &str, tape: Vec<u64>) -> i32 {
    let part = p.parts.iter().find(|x| x.name == part).expect("part");
    let mut ctx = Ctx::replay(tape);
    ctx.verbose = true;
    let r = run_case(part.case, &mut ctx);
    for n in &ctx.notes {
        println!("  {n}");
    }
    match r {
        Ok(()) => {
            println!("replay: property {} held", p.id);
            0
        }
        Err(m) => {
            println!("replay: {m}");
            1
        }
    }
}

/// How much the quick tier of a property is stretched: each takes about half a minute on 8 cores.
fn quick_factor(id: &str) -> f64 {
    match id {
        "P21" => 20.0,
        "P03" | "P13" => 10.0,
        "P25" => 8.0,
        "P24" => 6.0,
        "P11" | "P15" | "P16" | "P19" | "P22" => 4.0,
        "P01" | "P02" | "P04" | "P08" | "P09" | "P20" => 3.0,
        "P05" | "P06" | "P07" | "P12" | "P17" => 2.0,
        _ => 1.0,
    }
}

pub fn run(p: &Prop, tier: &str, seed: u64, scale: f64) -> i32 {
    let t0 = Instant::now();
    let ncpu = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8);
    let mut all = Stats::default();
    let mut failure: Option<Failure> = None;
    let mut per_part = vec![];
    // A safety net only: the work is fixed, this is never reached on a healthy machine.
    let deadline = t0 + Duration::from_secs(if tier == "quick" { 420 } else { 4 * 3600 });
    let mut truncated = false;

    for (pi, part) in p.parts.iter().enumerate() {
        let quick = part.quick as f64 * if part.threads >= 8 { quick_factor(p.id) } else { 1.0 };
        let n = ((if tier == "quick" { quick.min(part.thorough as f64) } else { part.thorough as f64 }) * scale).ceil() as u64;
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let found: Mutex<Option<Failure>> = Mutex::new(None);
        let stats: Mutex<Stats> = Mutex::new(Stats::default());
        let running = Running::new();
        let threads = part.threads.min(ncpu).max(1);
        let done = AtomicU64::new(0);
        let tp = Instant::now();

        std::thread::scope(|sc| {
            for w in 0..threads {
                let (next, stop, found, stats, running, done) =
                    (&next, &stop, &found, &stats, &running, &done);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let mut local = Stats::default();
                        running.register(w);
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= n || stop.load(Ordering::Relaxed) || Instant::now() > deadline {
                                break;
                            }
                            running.put(w, pi as u64, Some(i));
                            let mut ctx = Ctx::fresh(case_seed(seed, p.id, part.name, i));
                            // describe a few cases spread over the run
                            ctx.verbose = i % (n / 4 + 1) == n / 8 || (i < 64 && local.samples.is_empty());
                            let t0 = Instant::now();
                            let r = run_case(part.case, &mut ctx);
                            running.put(w, pi as u64, None);
                            local.slowest = local.slowest.max((t0.elapsed(), part.name, i));
                            local.evals += 1 + ctx.extra_evals;
                            match r {
                                Err(msg) => {
                                    let mut f = found.lock().unwrap();
                                    if f.as_ref().map_or(true, |x| i < x.index) {
                                        *f = Some(Failure {
                                            part: pi,
                                            index: i,
                                            tape: ctx.used().to_vec(),
                                            msg,
                                        });
                                    }
                                    stop.store(true, Ordering::Relaxed);
                                }
                                Ok(()) => {
                                    if ctx.discarded {
                                        local.discarded += 1;
                                        for t in &ctx.tags {
                                            *local.tags.entry(t).or_default() += 1;
                                        }
                                    } else {
                                        if ctx.nontrivial {
                                            let mut h =
                                                std::collections::hash_map::DefaultHasher::new();
                                            (pi, ctx.used()).hash(&mut h);
                                            local.nontrivial.insert(h.finish());
                                        }
                                        for t in &ctx.tags {
                                            *local.tags.entry(t).or_default() += 1;
                                        }
                                        if ctx.verbose && ctx.nontrivial && local.samples.len() < 2 {
                                            let mut s = format!(
                                                "[{}] {}",
                                                part.name,
                                                ctx.notes.join(" | ")
                                            );
                                            if s.len() > 900 {
                                                let mut e = 900;
                                                while !s.is_char_boundary(e) {
                                                    e -= 1;
                                                }
                                                s.truncate(e);
                                                s.push('…');
                                            }
                                            local.samples.push(s);
                                        }
                                    }
                                }
                            }
                        }
                        let mut s = stats.lock().unwrap();
                        s.evals += local.evals;
                        s.discarded += local.discarded;
                        s.nontrivial.extend(local.nontrivial);
                        for (k, v) in local.tags {
                            *s.tags.entry(k).or_default() += v;
                        }
                        s.samples.extend(local.samples);
                        s.slowest = s.slowest.max(local.slowest);
                        done.fetch_add(1, Ordering::Relaxed);
                    })
                    .unwrap();
            }
            // watchdog
            let (running, done) = (&running, &done);
            let mut seen = BTreeMap::new();
            sc.spawn(move || loop {
                std::thread::sleep(Duration::from_millis(50));
                if done.load(Ordering::Relaxed) as usize >= threads {
                    break;
                }
                if running.stuck(&mut seen) {
                    // The parent re-runs the running cases alone, with a CPU-time limit.
                    eprintln!("a case of {}/{} does not come to an end", p.id, part.name);
                    std::process::abort();
                }
            });
        });

        let st = stats.into_inner().unwrap();
        if Instant::now() > deadline {
            truncated = true;
        }
        per_part.push(serde_json::json!({
            "part": part.name, "cases": st.evals, "discarded": st.discarded,
            "distinct_nontrivial": st.nontrivial.len(), "wall_s": tp.elapsed().as_secs_f64(),
            "tags": st.tags,
        }));
        all.evals += st.evals;
        all.discarded += st.discarded;
        all.nontrivial.extend(st.nontrivial);
        for (k, v) in st.tags {
            *all.tags.entry(k).or_default() += v;
        }
        let mut samples = st.samples;
        samples.truncate(4);
        all.samples.extend(samples);
        all.slowest = all.slowest.max(st.slowest);
        if let Some(f) = found.into_inner().unwrap() {
            failure = Some(f);
            break;
        }
    }

    let mut violations = vec![];
    let mut code = 0;
    if let Some(mut f) = failure {
        let part = &p.parts[f.part];
        let orig = f.msg.clone();
        let runs = shrink(part, &mut f, Duration::from_secs(40));
        let mut ctx = Ctx::replay(f.tape.clone());
        ctx.verbose = true;
        let last = run_case(part.case, &mut ctx);
        let msg = last.err().unwrap_or_else(|| f.msg.clone());
        let path = write_replay(
            p.id,
            part.name,
            &f.tape,
            &msg,
            &ctx.notes,
            &format!("case {} seed {seed}; original failure: {orig}; {runs} shrink runs", f.index),
        );
        println!("{} [{}] case {} (seed {seed}): {msg}", p.id, part.name, f.index);
        for n in &ctx.notes {
            println!("    {n}");
        }
        println!("VIOLATION property={} replay={}", p.id, path);
        violations.push(serde_json::json!({"message": msg, "replay": path}));
        code = 1;
    }

    for what in KNOWN.lock().unwrap().iter() {
        println!("KNOWN-FINDING: property={} {what}", p.id);
    }
    let ev = serde_json::json!({
        "property": p.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": all.evals,
            "distinct_nontrivial": all.nontrivial.len(),
            "rule": p.rule,
            "samples": all.samples,
            "discarded": all.discarded,
            "tags": all.tags,
            "parts": per_part,
            "truncated_by_time": truncated,
        },
        "assumptions": p.assumptions,
        "violations": violations,
        "wall_s": t0.elapsed().as_secs_f64(),
    });
    let dir = format!("{VERIF}/evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(
        format!("{dir}/{}.json", p.id),
        serde_json::to_string_pretty(&ev).unwrap(),
    ) {
        eprintln!("cannot write evidence: {e}");
    }
    println!(
        "{} {tier}: {} cases, {} distinct non-trivial, {} discarded, {:.1}s{}",
        p.id,
        all.evals,
        all.nontrivial.len(),
        all.discarded,
        t0.elapsed().as_secs_f64(),
        if code == 0 { ", held" } else { ", VIOLATED" }
    );
    println!("  tags: {:?}", all.tags);
    println!("  slowest case: {:.1}s ({} {})", all.slowest.0.as_secs_f64(), all.slowest.1, all.slowest.2);
    if code == 0 && all.nontrivial.is_empty() {
        eprintln!("no non-trivial case was generated: giving no answer");
        return 2;
    }
    code
}

//! Property-based testing engine.
//!
//! Every random decision of a case is one `draw`, recorded as an integer. A case is therefore
//! fully described by its list of draws: replaying the list reproduces the case, and shrinking
//! the list (deleting runs, zeroing, minimising values) shrinks the case. All randomness derives
//! from the run seed; the number of cases is fixed per tier (no wall-clock budgets), and the
//! result does not depend on the number of worker threads.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// A property violation.
#[derive(Debug, Clone)]
pub struct Fail {
    pub msg: String,
}

pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($($arg:tt)*) => { return Err($crate::pbt::Fail { msg: format!($($arg)*) }) };
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => { if !($c) { $crate::fail!($($arg)*); } };
}

/// Uncaught problem of the harness itself (never reported as a violation).
#[macro_export]
macro_rules! harness_bug {
    ($($arg:tt)*) => { panic!("HARNESS: {}", format!($($arg)*)) };
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn mix(seed: u64, tag: &str, n: u64) -> u64 {
    let mut s = seed ^ 0x5851F42D4C957F2D;
    for b in tag.bytes() {
        s ^= b as u64;
        splitmix(&mut s);
        s = s.rotate_left(17);
    }
    s ^= n.wrapping_mul(0xD1342543DE82EF95);
    splitmix(&mut s)
}

/// Source of choices for one case.
pub struct G {
    state: u64,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
    pub trace_on: bool,
    pub trace: Vec<String>,
    labels: BTreeMap<&'static str, u64>,
    nontrivial: bool,
}

impl G {
    pub fn random(seed: u64) -> Self {
        Self {
            state: seed,
            replay: None,
            pos: 0,
            rec: Vec::new(),
            trace_on: false,
            trace: Vec::new(),
            labels: BTreeMap::new(),
            nontrivial: false,
        }
    }

    pub fn replay(draws: Vec<u64>) -> Self {
        let mut g = Self::random(0);
        g.replay = Some(draws);
        g
    }

    /// Uniform draw in `0..n`.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0, "HARNESS: below(0)");
        let v = match &self.replay {
            Some(r) => r.get(self.pos).copied().unwrap_or(0) % n,
            None => {
                let x = splitmix(&mut self.state);
                ((x as u128 * n as u128) >> 64) as u64
            }
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }

    pub fn u64(&mut self) -> u64 {
        let v = match &self.replay {
            Some(r) => r.get(self.pos).copied().unwrap_or(0),
            None => splitmix(&mut self.state),
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }

    pub fn u32(&mut self) -> u32 {
        self.below(1 << 32) as u32
    }
    pub fn u8(&mut self) -> u8 {
        self.below(256) as u8
    }
    /// Inclusive range.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// True with probability `num/den`; shrinks towards false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len() as u64) as usize;
        &xs[i]
    }
    /// Weighted choice: returns the index.
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut x = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        unreachable!()
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n);
        while v.len() < n {
            let x = self.u64().to_le_bytes();
            let k = (n - v.len()).min(8);
            v.extend_from_slice(&x[..k]);
        }
        v
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            // j == i (no move) is the shrink target.
            let j = i - self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
    /// A seed for a sub-generator inside the code under test.
    pub fn seed(&mut self) -> u64 {
        self.below(1 << 20)
    }

    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_insert(0) += 1;
    }
    pub fn count(&mut self, l: &'static str, n: u64) {
        *self.labels.entry(l).or_insert(0) += n;
    }
    /// Mark this case as non-trivial by the property's stated rule.
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn has_label(&self, l: &'static str) -> bool {
        self.labels.contains_key(l)
    }
}

#[macro_export]
macro_rules! note {
    ($g:expr, $($arg:tt)*) => { if $g.trace_on { let s = format!($($arg)*); $g.trace.push(s); } };
}

pub type CaseFn = fn(&mut G) -> Res;

/// One strategy (generator + oracle) of a property.
#[derive(Clone, Copy)]
pub struct Strategy {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub case: CaseFn,
}

pub struct Property {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub strategies: &'static [Strategy],
    pub assumptions: &'static [&'static str],
    /// Known, recorded defects: (description, probe). The probe returns true if still present.
    pub known: &'static [(&'static str, fn() -> bool)],
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
}

fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        PANIC.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some((loc, msg));
            }
        });
    }));
}

pub enum Outcome {
    Ok,
    Fail(Fail),
    Harness(String),
}

/// Run a case, catching panics. Panics raised by harness files are harness errors.
pub fn run_case(case: CaseFn, g: &mut G) -> Outcome {
    PANIC.with(|p| *p.borrow_mut() = None);
    match panic::catch_unwind(AssertUnwindSafe(|| case(g))) {
        Ok(Ok(())) => Outcome::Ok,
        Ok(Err(f)) => Outcome::Fail(f),
        Err(_) => {
            let (loc, msg) =
                PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if let Some(m) = msg.strip_prefix("CODE: ") {
                // Found by the driver, about the code under test.
                Outcome::Fail(Fail { msg: m.to_string() })
            } else if msg.starts_with("HARNESS") || loc.starts_with("src/") || loc.contains("/harness") {
                Outcome::Harness(format!("{} at {}", msg, loc))
            } else {
                Outcome::Fail(Fail {
                    msg: format!("code under test panicked at {}: {}", loc, msg),
                })
            }
        }
    }
}

fn still_fails(case: CaseFn, draws: &[u64]) -> Option<(Vec<u64>, Fail)> {
    let mut g = G::replay(draws.to_vec());
    match run_case(case, &mut g) {
        Outcome::Fail(f) => Some((g.rec, f)),
        _ => None,
    }
}

fn better(a: &[u64], b: &[u64]) -> bool {
    (a.len(), a) < (b.len(), b)
}

/// Shrink a failing list of draws.
fn shrink(case: CaseFn, mut best: Vec<u64>, mut fail: Fail, deadline: Instant) -> (Vec<u64>, Fail, u64) {
    let mut execs = 0u64;
    let max = 4000u64;
    let mut progress = true;
    while progress && execs < max && Instant::now() < deadline {
        progress = false;
        // Truncate.
        for frac in [2usize, 4, 8] {
            let n = best.len() - best.len() / frac;
            if n < best.len() {
                execs += 1;
                if let Some((r, f)) = still_fails(case, &best[..n]) {
                    if better(&r, &best) {
                        best = r;
                        fail = f;
                        progress = true;
                    }
                }
            }
        }
        // Delete runs.
        for k in [64usize, 32, 16, 8, 4, 2, 1] {
            let mut i = best.len().saturating_sub(k);
            while execs < max && Instant::now() < deadline {
                if i + k <= best.len() {
                    let mut c = best.clone();
                    c.drain(i..i + k);
                    execs += 1;
                    if let Some((r, f)) = still_fails(case, &c) {
                        if better(&r, &best) {
                            best = r;
                            fail = f;
                            progress = true;
                        }
                    }
                }
                if i == 0 {
                    break;
                }
                i = i.saturating_sub(k.max(1)).min(best.len().saturating_sub(k));
            }
        }
        // Minimise values.
        let mut i = 0;
        while i < best.len() && execs < max && Instant::now() < deadline {
            let v = best[i];
            for c in [0, v / 2, v.saturating_sub(1)] {
                if c < best[i] {
                    let mut cand = best.clone();
                    cand[i] = c;
                    execs += 1;
                    if let Some((r, f)) = still_fails(case, &cand) {
                        if better(&r, &best) {
                            best = r;
                            fail = f;
                            progress = true;
                        }
                        if i >= best.len() {
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
    }
    (best, fail, execs)
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Shared {
    evals: AtomicU64,
    distinct: Mutex<HashSet<u64>>,
    labels: Mutex<BTreeMap<String, u64>>,
    stop: AtomicBool,
    failure: Mutex<Option<(u64, usize, Vec<u64>, Fail)>>,
    harness: Mutex<Option<String>>,
    current: Vec<Mutex<Option<(Instant, usize, u64)>>>,
}

impl Shared {
    fn new(workers: usize) -> Self {
        Self {
            evals: AtomicU64::new(0),
            distinct: Mutex::new(HashSet::new()),
            labels: Mutex::new(BTreeMap::new()),
            stop: AtomicBool::new(false),
            failure: Mutex::new(None),
            harness: Mutex::new(None),
            current: (0..workers).map(|_| Mutex::new(None)).collect(),
        }
    }
}

pub struct Ctx {
    pub verif: String,
    pub tier: String,
    pub seed: u64,
    pub scale: f64,
}

fn write_evidence(
    ctx: &Ctx,
    p: &Property,
    sh: &Shared,
    per: &[(String, u64)],
    samples: &[String],
    wall: f64,
    violations: u64,
) {
    let distinct = sh.distinct.lock().unwrap().len();
    let labels = sh.labels.lock().unwrap();
    let mut o = String::from("{\n");
    o += &format!("  \"property\": {},\n", json_str(p.id));
    o += &format!("  \"tier\": {},\n", json_str(&ctx.tier));
    o += &format!("  \"seed\": {},\n", ctx.seed as i64);
    o += &format!("  \"level\": {},\n", json_str(p.level));
    o += "  \"coverage\": {\n";
    o += &format!("    \"evaluations\": {},\n", sh.evals.load(Ordering::SeqCst));
    o += &format!("    \"distinct_nontrivial\": {},\n", distinct);
    o += &format!("    \"rule\": {},\n", json_str(p.rule));
    o += "    \"strategies\": {";
    o += &per
        .iter()
        .map(|(n, c)| format!("{}: {}", json_str(n), c))
        .collect::<Vec<_>>()
        .join(", ");
    o += "},\n    \"classes\": {";
    o += &labels
        .iter()
        .map(|(n, c)| format!("{}: {}", json_str(n), c))
        .collect::<Vec<_>>()
        .join(", ");
    o += "},\n    \"samples\": [\n      ";
    o += &samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",\n      ");
    o += "\n    ]\n  },\n";
    o += "  \"assumptions\": [";
    o += &p.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ");
    o += "],\n";
    o += &format!("  \"wall_s\": {:.2},\n", wall);
    o += &format!("  \"violations\": {}\n}}\n", violations);
    let dir = format!("{}/evidence", ctx.verif);
    std::fs::create_dir_all(&dir).ok();
    std::fs::write(format!("{}/{}.json", dir, p.id), o).unwrap();
}

/// Set in the process that runs the cases: the file where it notes what it is running.
const JOURNAL: &str = "VERIF_JOURNAL";
/// Limit on the address space of the processes that run cases.
const MAX_MEMORY: u64 = 20 << 30;
const WORKERS: usize = 8;

/// A process of this program, with limited memory.
fn process(args: &[String], journal: &str) -> std::process::Command {
    use std::os::unix::process::CommandExt;
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.args(args).env(JOURNAL, journal);
    unsafe {
        c.pre_exec(|| {
            let l = libc::rlimit { rlim_cur: MAX_MEMORY, rlim_max: MAX_MEMORY };
            libc::setrlimit(libc::RLIMIT_AS, &l);
            let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &l);
            // Don't outlive the parent.
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    c
}

/// Run a property's check. Returns the process exit code.
///
/// The cases run in a process of their own, so that code that aborts or exhausts the memory,
/// which can't be caught, is reported as well.
pub fn check(p: &'static Property, ctx: &Ctx) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    if let Ok(journal) = std::env::var(JOURNAL) {
        return run(p, ctx, &journal);
    }
    let start = Instant::now();
    let journal = std::env::temp_dir().join(format!("nkverif-{}-{}", p.id, std::process::id()));
    let journal = journal.to_str().unwrap().to_string();
    std::fs::write(&journal, vec![0xff; WORKERS * 16]).unwrap();
    let status = process(&[p.id.to_string()], &journal).status().expect("HARNESS: can't run");
    let running = std::fs::read(&journal).unwrap_or_default();
    std::fs::remove_file(&journal).ok();
    if let Some(code) = status.code() {
        return code;
    }
    // It was killed by a signal. Find the case.
    eprintln!("{}: ended by signal {:?}", p.id, status.signal());
    for w in running.chunks_exact(16) {
        let si = u64::from_le_bytes(w[..8].try_into().unwrap()) as usize;
        let i = u64::from_le_bytes(w[8..].try_into().unwrap());
        let Some(s) = p.strategies.get(si) else { continue };
        let args = ["--case".to_string(), p.id.to_string(), s.name.to_string(), ctx.seed.to_string(), i.to_string()];
        let status = process(&args, "-").status().expect("HARNESS: can't run");
        if let Some(sig) = status.signal() {
            let msg = format!("the process was ended by signal {} (6: abort, eg. out of memory; 11: eg. stack overflow) in case {} of seed {}", sig, i, ctx.seed);
            let path = write_replay(ctx, p, s, &[], &msg, &[], Some(i));
            let sh = Shared::new(0);
            write_evidence(ctx, p, &sh, &[], &[msg.clone()], start.elapsed().as_secs_f64(), 1);
            println!("{}: {} (strategy {})", p.id, msg, s.name);
            println!("VIOLATION property={} replay={}", p.id, path);
            return 1;
        }
    }
    eprintln!("{}: the signal could not be reproduced", p.id);
    3
}

/// Run a single case, by number. Exit code 1 if it fails.
pub fn single(props: &[&'static Property], args: &[String]) -> i32 {
    install_hook();
    let p = props.iter().find(|p| p.id == args[0]).expect("unknown property");
    let s = p.strategies.iter().find(|s| s.name == args[1]).expect("unknown strategy");
    let (seed, i): (u64, u64) = (args[2].parse().unwrap(), args[3].parse().unwrap());
    let mut g = G::random(mix(seed, &format!("{}/{}", p.id, s.name), i));
    watch(Duration::from_secs(200), 1, String::new());
    match run_case(s.case, &mut g) {
        Outcome::Ok => 0,
        Outcome::Fail(f) => {
            println!("{}: {}", p.id, f.msg);
            1
        }
        Outcome::Harness(m) => {
            println!("HARNESS ERROR {}", m);
            2
        }
    }
}

/// End the process with the given message, if it is still running after some time.
fn watch(after: Duration, code: i32, msg: String) {
    std::thread::spawn(move || {
        std::thread::sleep(after);
        if !msg.is_empty() {
            println!("{}", msg);
        }
        std::process::exit(code);
    });
}

fn run(p: &'static Property, ctx: &Ctx, journal: &str) -> i32 {
    use std::os::unix::fs::FileExt;
    install_hook();
    let journal = Arc::new(std::fs::OpenOptions::new().write(true).open(journal).expect("HARNESS: journal"));
    let start = Instant::now();
    let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(WORKERS);
    let sh = Arc::new(Shared::new(workers));
    let mut jobs: Vec<(usize, u64)> = Vec::new();
    let mut per = Vec::new();
    for (si, s) in p.strategies.iter().enumerate() {
        let n = if ctx.tier == "thorough" { s.thorough } else { s.quick };
        let boost = match BOOST.iter().find(|(id, _)| *id == p.id) {
            Some((_, b)) if ctx.tier != "thorough" => *b,
            _ => 1.,
        };
        let n = ((n as f64 * ctx.scale * boost).ceil() as u64).max(1);
        per.push((s.name.to_string(), n));
        for i in 0..n {
            jobs.push((si, i));
        }
    }
    // Interleave strategies so that a failure in any is met early.
    jobs.sort_by_key(|(si, i)| {
        let n = per[*si].1;
        (i * 1_000_000 / n, *si)
    });
    let jobs = Arc::new(jobs);
    let next = Arc::new(AtomicUsize::new(0));
    let seed = ctx.seed;

    let handles: Vec<_> = (0..workers)
        .map(|w| {
            let sh = sh.clone();
            let jobs = jobs.clone();
            let next = next.clone();
            let journal = journal.clone();
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
                    let mut distinct = Vec::new();
                    loop {
                        if sh.stop.load(Ordering::SeqCst) {
                            break;
                        }
                        let j = next.fetch_add(1, Ordering::SeqCst);
                        if j >= jobs.len() {
                            break;
                        }
                        let (si, i) = jobs[j];
                        let s = &p.strategies[si];
                        *sh.current[w].lock().unwrap() = Some((Instant::now(), si, i));
                        let mut note = [0u8; 16];
                        note[..8].copy_from_slice(&(si as u64).to_le_bytes());
                        note[8..].copy_from_slice(&i.to_le_bytes());
                        journal.write_all_at(&note, w as u64 * 16).ok();
                        let mut g = G::random(mix(seed, &format!("{}/{}", p.id, s.name), i));
                        let out = run_case(s.case, &mut g);
                        *sh.current[w].lock().unwrap() = None;
                        sh.evals.fetch_add(1, Ordering::SeqCst);
                        match out {
                            Outcome::Ok => {
                                if g.nontrivial {
                                    let mut h = std::collections::hash_map::DefaultHasher::new();
                                    si.hash(&mut h);
                                    g.rec.hash(&mut h);
                                    distinct.push(h.finish());
                                    *labels
                                        .entry(format!("{}:nontrivial", s.name))
                                        .or_insert(0) += 1;
                                }
                                for (l, n) in &g.labels {
                                    *labels.entry(format!("{}:{}", s.name, l)).or_insert(0) += n;
                                }
                            }
                            Outcome::Fail(f) => {
                                let mut slot = sh.failure.lock().unwrap();
                                if slot.as_ref().map_or(true, |(o, ..)| (j as u64) < *o) {
                                    *slot = Some((j as u64, si, g.rec.clone(), f));
                                }
                                sh.stop.store(true, Ordering::SeqCst);
                            }
                            Outcome::Harness(m) => {
                                *sh.harness.lock().unwrap() =
                                    Some(format!("{}/{} case {}: {}", p.id, s.name, i, m));
                                sh.stop.store(true, Ordering::SeqCst);
                            }
                        }
                    }
                    let mut l = sh.labels.lock().unwrap();
                    for (k, v) in labels {
                        *l.entry(k).or_insert(0) += v;
                    }
                    sh.distinct.lock().unwrap().extend(distinct);
                })
                .unwrap()
        })
        .collect();

    // Watchdog: a single case may not run for this long.
    let limit = Duration::from_secs(
        std::env::var("VERIF_CASE_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(100),
    );
    while handles.iter().any(|h| !h.is_finished()) {
        std::thread::sleep(Duration::from_millis(20));
        for c in &sh.current {
            let c = *c.lock().unwrap();
            if let Some((t, si, i)) = c {
                if t.elapsed() > limit {
                    let s = &p.strategies[si];
                    eprintln!("{}/{} case {} (seed {}) did not terminate", p.id, s.name, i, seed);
                    // Cases take milliseconds: something of the code under test never ends.
                    let path = write_replay(
                        ctx,
                        p,
                        s,
                        &[],
                        &format!("case {} of seed {} did not terminate", i, seed),
                        &[],
                        Some(i),
                    );
                    write_evidence(ctx, p, &sh, &per, &["(hang)".into()], start.elapsed().as_secs_f64(), 1);
                    println!("VIOLATION property={} replay={}", p.id, path);
                    std::process::exit(1);
                }
            }
        }
    }
    for h in handles {
        h.join().unwrap();
    }
    if let Some(m) = sh.harness.lock().unwrap().clone() {
        eprintln!("HARNESS ERROR {}", m);
        // A violation found in the same run is still reported below only if there is one.
        if sh.failure.lock().unwrap().is_none() {
            return 2;
        }
    }
    let failure = sh.failure.lock().unwrap().clone();
    if let Some((_, si, draws, f)) = failure {
        let s = &p.strategies[si];
        eprintln!("{}: failing case found in strategy {}: {}", p.id, s.name, f.msg);
        // Confirm by replay, then shrink. It may crash or hang, too.
        let path = write_replay(ctx, p, s, &draws, &f.msg, &[], None);
        write_evidence(ctx, p, &sh, &per, &[format!("violation: {}", f.msg)], start.elapsed().as_secs_f64(), 1);
        watch(
            limit + Duration::from_secs(60),
            1,
            format!("{}: {} (strategy {})\nVIOLATION property={} replay={}", p.id, f.msg, s.name, p.id, path),
        );
        let confirmed = still_fails(s.case, &draws).is_some();
        let deadline = Instant::now() + Duration::from_secs(60);
        let (draws, f, n) = if confirmed {
            shrink(s.case, draws, f, deadline)
        } else {
            (draws, f, 0)
        };
        let mut g = G::replay(draws.clone());
        g.trace_on = true;
        run_case(s.case, &mut g);
        let path = write_replay(ctx, p, s, &draws, &f.msg, &g.trace, None);
        write_evidence(ctx, p, &sh, &per, &[format!("violation: {}", f.msg)], start.elapsed().as_secs_f64(), 1);
        println!("{}: {} (strategy {}, shrunk with {} runs to {} draws{})", p.id, f.msg, s.name, n, draws.len(),
            if confirmed { "" } else { "; NOT reproduced by its replay" });
        let skip = g.trace.len().saturating_sub(80);
        if skip > 0 {
            println!("    ... ({} lines, all of them in the replay file)", skip);
        }
        for l in g.trace.iter().skip(skip) {
            println!("    {}", l);
        }
        println!("VIOLATION property={} replay={}", p.id, path);
        return 1;
    }
    // Samples: re-run some non-trivial cases with tracing.
    let mut samples = Vec::new();
    for s in p.strategies.iter() {
        let mut got = 0;
        for i in 0..300u64 {
            let mut g = G::random(mix(seed, &format!("{}/{}", p.id, s.name), i));
            g.trace_on = true;
            run_case(s.case, &mut g);
            if g.nontrivial {
                let mut t = g.trace.join("; ");
                if t.len() > 1500 {
                    let mut k = 1500;
                    while !t.is_char_boundary(k) {
                        k -= 1;
                    }
                    t.truncate(k);
                    t.push_str(" …");
                }
                samples.push(format!("[{} #{}] {}", s.name, i, t));
                got += 1;
                if got == 2 {
                    break;
                }
            }
        }
    }
    for (desc, probe) in p.known {
        if probe() {
            println!("KNOWN-FINDING: property={} {}", p.id, desc);
        }
    }
    let wall = start.elapsed().as_secs_f64();
    write_evidence(ctx, p, &sh, &per, &samples, wall, 0);
    println!(
        "{}: held on {} cases ({} distinct non-trivial) in {:.1}s [{} seed {}]",
        p.id,
        sh.evals.load(Ordering::SeqCst),
        sh.distinct.lock().unwrap().len(),
        wall,
        ctx.tier,
        seed
    );
    0
}

fn write_replay(
    ctx: &Ctx,
    p: &Property,
    s: &Strategy,
    draws: &[u64],
    msg: &str,
    trace: &[String],
    case: Option<u64>,
) -> String {
    let dir = format!("{}/replays", ctx.verif);
    std::fs::create_dir_all(&dir).ok();
    let path = format!("{}/{}-{}.json", dir, p.id, s.name);
    let mut o = String::from("{\n");
    o += &format!("  \"property\": {},\n  \"strategy\": {},\n", json_str(p.id), json_str(s.name));
    o += &format!("  \"seed\": {},\n", ctx.seed);
    if let Some(c) = case {
        o += &format!("  \"case\": {},\n", c);
    }
    o += &format!("  \"message\": {},\n", json_str(msg));
    o += &format!(
        "  \"trace\": [{}],\n",
        trace.iter().map(|t| json_str(t)).collect::<Vec<_>>().join(",\n    ")
    );
    o += &format!(
        "  \"draws\": [{}]\n}}\n",
        draws.iter().map(|d| d.to_string()).collect::<Vec<_>>().join(",")
    );
    std::fs::write(&path, o).unwrap();
    path
}

/// Factors for the number of quick cases, such that each check takes about half a minute.
const BOOST: &[(&str, f64)] = &[
    ("C01", 1.5), ("C02", 1.5), ("C03", 2.5), ("C04", 4.), ("C06", 2.), ("C07", 2.5), ("C08", 8.), ("C09", 4.),
    ("C10", 4.), ("C11", 8.), ("C12", 8.), ("C13", 2.), ("C14", 3.), ("C15", 4.), ("C16", 4.), ("C17", 5.),
    ("C18", 5.), ("C19", 3.), ("C20", 1.5), ("C21", 2.5), ("C22", 6.), ("C23", 5.), ("C24", 4.), ("C25", 10.),
    ("C27", 2.), ("C28", 5.), ("C29", 4.), ("C31", 3.), ("C32", 2.5), ("C34", 5.),
];

/// Properties with threads of their own.
const THREADED: &[&str] = &["C31", "C33", "C35"];

/// Re-run a replay file. Exit code 1 if it still fails, 0 otherwise.
pub fn replay(props: &[&'static Property], file: &str) -> i32 {
    install_hook();
    let s = std::fs::read_to_string(file).unwrap();
    let field = |k: &str| -> String {
        let i = s.find(&format!("\"{}\":", k)).unwrap() + k.len() + 3;
        s[i..].trim_start().trim_start_matches('"').split('"').next().unwrap().to_string()
    };
    let number = |k: &str| -> Option<u64> {
        let i = s.find(&format!("\"{}\": ", k))? + k.len() + 4;
        s[i..].split(',').next()?.trim().parse().ok()
    };
    let (case, case_seed) = (number("case"), number("seed"));
    let (id, st) = (field("property"), field("strategy"));
    let i = s.rfind("\"draws\": [").unwrap() + 10;
    let list = &s[i..s[i..].find(']').unwrap() + i];
    let draws: Vec<u64> =
        list.split(',').filter(|x| !x.trim().is_empty()).map(|x| x.trim().parse().unwrap()).collect();
    let p = props.iter().find(|p| p.id == id).expect("unknown property");
    let s = p.strategies.iter().find(|s| s.name == st).expect("unknown strategy");
    if draws.is_empty() && case.is_some() {
        // A case that crashed, or didn't end.
        let (seed, i): (u64, u64) = (case_seed.unwrap(), case.unwrap());
        let limit = Duration::from_secs(150);
        watch(limit, 1, format!("{}: doesn't end\nVIOLATION property={} replay={}", id, id, file));
        let mut g = G::random(mix(seed, &format!("{}/{}", p.id, s.name), i));
        return match run_case(s.case, &mut g) {
            Outcome::Ok => 0,
            Outcome::Fail(f) => {
                println!("{}: {}\nVIOLATION property={} replay={}", id, f.msg, id, file);
                1
            }
            Outcome::Harness(_) => 2,
        };
    }
    let mut g = G::replay(draws.clone());
    g.trace_on = true;
    let mut out = run_case(s.case, &mut g);
    // Cases with threads depend on the scheduling, too.
    let end = Instant::now() + Duration::from_secs(if THREADED.contains(&p.id) { 120 } else { 0 });
    while matches!(out, Outcome::Ok) && Instant::now() < end {
        g = G::replay(draws.clone());
        g.trace_on = true;
        out = run_case(s.case, &mut g);
    }
    for l in &g.trace {
        println!("    {}", l);
    }
    match out {
        Outcome::Ok => {
            println!("{}: replay holds", id);
            0
        }
        Outcome::Fail(f) => {
            println!("{}: {}", id, f.msg);
            println!("VIOLATION property={} replay={}", id, file);
            1
        }
        Outcome::Harness(m) => {
            println!("HARNESS ERROR {}", m);
            2
        }
    }
}

//! Exhaustive-exploration engine shared by all checks.
//!
//! A check is a list of *families*. A family is a finite, index-addressable
//! space of executions (`0..size`); the engine runs every index of every family
//! on all cores, on the real code, and the family's oracle judges each run.
//! Nothing is sampled. A case is replayable from `(family, index, tier)`.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};
use std::io::Write as _;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub mod trees;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
}

/// A property violation seen in one execution.
#[derive(Debug, Clone)]
pub struct Fail {
    /// Identity used to look the failure up in known_findings.json.
    pub key: Option<String>,
    pub msg: String,
}

impl From<String> for Fail {
    fn from(msg: String) -> Self {
        Fail { key: None, msg }
    }
}
impl From<&str> for Fail {
    fn from(msg: &str) -> Self {
        Fail { key: None, msg: msg.to_string() }
    }
}

pub type Outcome = Result<(), Fail>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => {
        if !$c { return Err($crate::Fail::from(format!($($t)*))); }
    };
}

#[derive(Default, Clone, Copy)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.0 = (self.0 ^ x as u64).wrapping_mul(0x100000001b3);
        }
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = i;
    }
}
type IdSet = HashSet<u64, BuildHasherDefault<IdHasher>>;

/// 64-bit FNV-1a with a final mix.
pub fn hash64(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x100000001b3);
    }
    h ^= h >> 33;
    h = h.wrapping_mul(0xff51afd7ed558ccd);
    h ^ (h >> 33)
}

const STATE_CAP: usize = 4_000_000;

/// What one worker measured.
#[derive(Default)]
pub struct Obs {
    states: IdSet,
    states_overflow: u64,
    pub transitions: u64,
    pub traces: u64,
    nontrivial: u64,
    case_nontrivial: bool,
    outcomes: BTreeMap<&'static str, u64>,
    known: BTreeMap<String, u64>,
    /// When set, the oracle prints what it does (replay mode).
    pub verbose: bool,
}

impl Obs {
    /// A state of the system (canonical form) was visited and judged.
    pub fn state(&mut self, canon: &[u8]) {
        self.state_hash(hash64(canon));
    }
    pub fn state_hash(&mut self, h: u64) {
        if self.states.len() < STATE_CAP {
            self.states.insert(h);
        } else if !self.states.contains(&h) {
            self.states_overflow += 1;
        }
    }
    /// One step of the implementation was executed and judged.
    pub fn step(&mut self, n: u64) {
        self.transitions += n;
    }
    /// One complete execution was compared with the reference.
    pub fn trace(&mut self) {
        self.traces += 1;
    }
    /// The case exercises the property (by the family's rule).
    pub fn nontrivial(&mut self) {
        self.case_nontrivial = true;
    }
    /// Counts a class of observed outcome, to show the exploration is not vacuous.
    pub fn seen(&mut self, what: &'static str) {
        *self.outcomes.entry(what).or_insert(0) += 1;
    }
    pub fn seen_n(&mut self, what: &'static str, n: u64) {
        *self.outcomes.entry(what).or_insert(0) += n;
    }
}

type RunFn = Box<dyn Fn(u64, &mut Obs) -> Outcome + Send + Sync>;
type DescFn = Box<dyn Fn(u64) -> String + Send + Sync>;

pub struct Family {
    pub name: String,
    /// The bound, in words.
    pub bound: String,
    pub size: u64,
    pub run: RunFn,
    pub describe: DescFn,
}

impl Family {
    pub fn new(
        name: impl Into<String>,
        bound: impl Into<String>,
        size: u64,
        describe: impl Fn(u64) -> String + Send + Sync + 'static,
        run: impl Fn(u64, &mut Obs) -> Outcome + Send + Sync + 'static,
    ) -> Self {
        Family {
            name: name.into(),
            bound: bound.into(),
            size,
            run: Box::new(run),
            describe: Box::new(describe),
        }
    }
}

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    /// How cases are made and which are non-trivial.
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub families: fn(Tier) -> Vec<Family>,
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let full = format!("{m} [{loc}]");
        if !QUIET.with(|q| q.get()) {
            eprintln!("panic: {full}");
        }
        PANIC.with(|p| *p.borrow_mut() = Some(full));
    }));
}

/// Runs `f`; a panic becomes `Err(message [location])`.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let old = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(old));
    r.map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

fn run_case(f: &Family, idx: u64, obs: &mut Obs) -> Outcome {
    obs.case_nontrivial = false;
    match guarded(|| (f.run)(idx, obs)) {
        Ok(r) => r,
        Err(p) => Err(Fail { key: None, msg: format!("panicked: {p}") }),
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Reads `"key": value` out of our own one-level JSON files.
fn json_field(text: &str, key: &str) -> Option<String> {
    let pat = format!("\"{key}\":");
    let at = text.find(&pat)? + pat.len();
    let rest = text[at..].trim_start();
    if let Some(r) = rest.strip_prefix('"') {
        let mut out = String::new();
        let mut it = r.chars();
        while let Some(c) = it.next() {
            match c {
                '"' => return Some(out),
                '\\' => match it.next()? {
                    'n' => out.push('\n'),
                    'r' => out.push('\r'),
                    't' => out.push('\t'),
                    'u' => {
                        let h: String = (0..4).filter_map(|_| it.next()).collect();
                        out.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                    }
                    c => out.push(c),
                },
                c => out.push(c),
            }
        }
        None
    } else {
        Some(rest.chars().take_while(|c| c.is_ascii_alphanumeric() || *c == '.').collect())
    }
}

struct Known {
    /// (property, key) pairs
    entries: Vec<(String, String, String)>,
}

impl Known {
    fn load(root: &str) -> Known {
        let mut entries = Vec::new();
        if let Ok(t) = std::fs::read_to_string(format!("{root}/known_findings.jsonl")) {
            for line in t.lines() {
                if json_field(line, "status").as_deref() == Some("open")
                    && let (Some(p), Some(k), Some(w)) =
                        (json_field(line, "property"), json_field(line, "key"), json_field(line, "what"))
                {
                    entries.push((p, k, w));
                }
            }
        }
        Known { entries }
    }
    fn get(&self, prop: &str, key: &str) -> Option<&str> {
        self.entries.iter().find(|(p, k, _)| p == prop && k == key).map(|e| e.2.as_str())
    }
}

// Progress cells shared with the supervisor through a mapped file, so that a
// case that aborts the process (stack overflow, allocation failure) is known.
unsafe extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
}
const CELL: usize = 64;

struct Cells {
    base: *mut AtomicU64,
}
unsafe impl Sync for Cells {}
unsafe impl Send for Cells {}

impl Cells {
    fn open(path: &str, n: usize) -> Cells {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(false)
            .open(path)
            .expect("progress file");
        f.set_len((n * CELL) as u64).expect("progress file size");
        let p = unsafe { mmap(std::ptr::null_mut(), n * CELL, 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1, "mmap");
        Cells { base: p as *mut AtomicU64 }
    }
    fn at(&self, i: usize, w: usize) -> &AtomicU64 {
        unsafe { &*self.base.add(i * (CELL / 8) + w) }
    }
}

fn threads() -> usize {
    std::env::var("MC_THREADS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16))
}

fn root_dir() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}

fn write_replay(check: &Check, tier: Tier, f: &Family, idx: u64, msg: &str, n: usize) -> String {
    let root = root_dir();
    let dir = format!("{root}/replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{}-{n}.json", check.id);
    let desc = guarded(|| (f.describe)(idx)).unwrap_or_default();
    let body = format!(
        "{{\"property\": {}, \"family\": {}, \"index\": {idx}, \"tier\": {}, \"case\": {}, \"message\": {}, \"replay_cmd\": {}}}\n",
        json_str(check.id),
        json_str(&f.name),
        json_str(if tier == Tier::Quick { "quick" } else { "thorough" }),
        json_str(&desc),
        json_str(msg),
        json_str(&format!("bash /verif/mc/check.sh {} replay {path}", check.id)),
    );
    let _ = std::fs::write(&path, body);
    path
}

fn report_violation(check: &Check, tier: Tier, f: &Family, idx: u64, msg: &str, n: usize) {
    let path = write_replay(check, tier, f, idx, msg, n);
    println!("VIOLATION property={} replay={path}", check.id);
    let desc = guarded(|| (f.describe)(idx)).unwrap_or_default();
    println!("  family {} case {idx}: {desc}", f.name);
    for l in msg.lines().take(40) {
        println!("  {l}");
    }
    let _ = std::io::stdout().flush();
}

/// Limit for one case: cases are tiny (microseconds to milliseconds).
const CASE_LIMIT: Duration = Duration::from_secs(60);

fn worker(check: &Check, tier: Tier, cells_path: &str) -> i32 {
    let start = Instant::now();
    let deadline = Duration::from_secs(tier.pick(600, 3 * 3600));
    let known = Known::load(&root_dir());
    let families = (check.families)(tier);
    {
        let mut names = HashSet::new();
        for f in &families {
            assert!(names.insert(f.name.clone()), "duplicate family {}", f.name);
        }
    }
    let nt = threads();
    let cells = Cells::open(cells_path, nt);
    let total_obs: Mutex<Obs> = Mutex::new(Obs::default());
    // best = smallest (family, index) failing
    let best: Mutex<Option<(usize, u64, String)>> = Mutex::new(None);
    let stop = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let finished = AtomicBool::new(false);
    let mut fam_stats: Vec<(u64, u64, f64)> = Vec::new();
    let violations = AtomicU64::new(0);

    let survey: Option<u64> = std::env::var("MC_SURVEY").ok().and_then(|s| s.parse().ok());
    let epoch = Instant::now();
    std::thread::scope(|s| {
        // watchdog
        s.spawn(|| {
            while !finished.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(200));
                let now = epoch.elapsed().as_millis() as u64;
                for t in 0..nt {
                    let st = cells.at(t, 2).load(Ordering::Relaxed);
                    if st != 0 && now > st + CASE_LIMIT.as_millis() as u64 {
                        let fi = cells.at(t, 0).load(Ordering::Relaxed) as usize;
                        let ix = cells.at(t, 1).load(Ordering::Relaxed);
                        report_violation(
                            check,
                            tier,
                            &families[fi],
                            ix,
                            "did not finish within 60 s (a case normally takes well under a second)",
                            0,
                        );
                        write_evidence(check, tier, start, &[], &families, &Obs::default(), 1, true);
                        std::process::exit(1);
                    }
                }
            }
        });

        for (fi, f) in families.iter().enumerate() {
            if stop.load(Ordering::Relaxed) {
                fam_stats.push((0, 0, 0.0));
                continue;
            }
            let fstart = Instant::now();
            let next = AtomicU64::new(0);
            let chunk = (f.size / (nt as u64 * 64)).clamp(1, 4096);
            let done = AtomicU64::new(0);
            let nontriv = AtomicU64::new(0);
            let shown = AtomicU64::new(0);
            std::thread::scope(|s2| {
                for t in 0..nt {
                    let (next, done, nontriv, cells, best, stop, capped, known, total_obs, violations, shown) = (
                        &next, &done, &nontriv, &cells, &best, &stop, &capped, &known, &total_obs, &violations, &shown,
                    );
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s2, move || {
                            let mut obs = Obs::default();
                            let mut cnt = 0u64;
                            'outer: loop {
                                let from = next.fetch_add(chunk, Ordering::Relaxed);
                                if from >= f.size {
                                    break;
                                }
                                if start.elapsed() > deadline {
                                    capped.store(true, Ordering::Relaxed);
                                    break;
                                }
                                for idx in from..(from + chunk).min(f.size) {
                                    if stop.load(Ordering::Relaxed) {
                                        let b = best.lock().unwrap();
                                        if let Some((bf, bi, _)) = &*b
                                            && (*bf, *bi) < (fi, idx)
                                        {
                                            break 'outer;
                                        }
                                    }
                                    cells.at(t, 0).store(fi as u64, Ordering::Relaxed);
                                    cells.at(t, 1).store(idx, Ordering::Relaxed);
                                    cells.at(t, 2).store(epoch.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                                    let r = run_case(f, idx, &mut obs);
                                    cnt += 1;
                                    if obs.case_nontrivial {
                                        obs.nontrivial += 1;
                                    }
                                    if let Err(e) = r {
                                        if let Some(k) = &e.key
                                            && known.get(check.id, k).is_some()
                                        {
                                            *obs.known.entry(k.clone()).or_insert(0) += 1;
                                            continue;
                                        }
                                        violations.fetch_add(1, Ordering::Relaxed);
                                        if let Some(n) = survey {
                                            // triage aid: print the first cases of every family, go on
                                            let k = shown.fetch_add(1, Ordering::Relaxed);
                                            if k < n {
                                                let d = guarded(|| (f.describe)(idx)).unwrap_or_default();
                                                println!("SURVEY {} {idx}: {d}\n    {:?} {}", f.name, e.key, e.msg);
                                            }
                                            continue;
                                        }
                                        let mut b = best.lock().unwrap();
                                        let better = match &*b {
                                            None => true,
                                            Some((bf, bi, _)) => (fi, idx) < (*bf, *bi),
                                        };
                                        if better {
                                            let m = match &e.key {
                                                Some(k) => format!("{} (key: {k})", e.msg),
                                                None => e.msg,
                                            };
                                            *b = Some((fi, idx, m));
                                        }
                                        stop.store(true, Ordering::Relaxed);
                                    }
                                }
                            }
                            cells.at(t, 2).store(0, Ordering::Relaxed);
                            done.fetch_add(cnt, Ordering::Relaxed);
                            nontriv.fetch_add(obs.nontrivial, Ordering::Relaxed);
                            let mut g = total_obs.lock().unwrap();
                            g.transitions += obs.transitions;
                            g.traces += obs.traces;
                            g.nontrivial += obs.nontrivial;
                            g.states_overflow += obs.states_overflow;
                            if g.states.len() < STATE_CAP * 4 {
                                g.states.extend(obs.states);
                            } else {
                                g.states_overflow += obs.states.len() as u64;
                            }
                            for (k, v) in obs.outcomes {
                                *g.outcomes.entry(k).or_insert(0) += v;
                            }
                            for (k, v) in obs.known {
                                *g.known.entry(k).or_insert(0) += v;
                            }
                        })
                        .expect("spawn");
                }
            });
            if survey.is_some() {
                println!("SURVEY {}: {} of {} fail", f.name, shown.load(Ordering::Relaxed), f.size);
            }
            fam_stats.push((
                done.load(Ordering::Relaxed),
                nontriv.load(Ordering::Relaxed),
                fstart.elapsed().as_secs_f64(),
            ));
        }
        finished.store(true, Ordering::Relaxed);
    });

    let obs = total_obs.into_inner().unwrap();
    let nviol = violations.load(Ordering::Relaxed);
    let exhaustive = !capped.load(Ordering::Relaxed) && nviol == 0;
    write_evidence(check, tier, start, &fam_stats, &families, &obs, nviol, !exhaustive);
    for (k, n) in &obs.known {
        println!(
            "KNOWN-FINDING: property={} {} [key {k}, {n} explored cases]",
            check.id,
            known.get(check.id, k).unwrap_or("")
        );
    }
    if let Some((fi, idx, msg)) = best.into_inner().unwrap() {
        report_violation(check, tier, &families[fi], idx, &msg, 0);
        return 1;
    }
    let evals: u64 = fam_stats.iter().map(|s| s.0).sum();
    for (f, s) in families.iter().zip(&fam_stats).filter(|_| std::env::var("MC_FAMILIES").is_ok()) {
        println!("  {:<34} {:>10} cases {:>10} non-trivial {:>7.2}s  {}", f.name, s.0, s.1, s.2, f.bound);
    }
    println!(
        "{} {:?}: held on {evals} executions ({} non-trivial), {} states, {} transitions, {} traces, {:.1}s{}",
        check.id,
        tier,
        obs.nontrivial,
        obs.states.len() as u64,
        obs.transitions,
        obs.traces,
        start.elapsed().as_secs_f64(),
        if capped.load(Ordering::Relaxed) { " (TIME CAP HIT: not exhaustive)" } else { "" }
    );
    println!("  outcomes: {:?}", obs.outcomes);
    0
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    check: &Check,
    tier: Tier,
    start: Instant,
    stats: &[(u64, u64, f64)],
    families: &[Family],
    obs: &Obs,
    viol: u64,
    not_exhaustive: bool,
) {
    let root = root_dir();
    let _ = std::fs::create_dir_all(format!("{root}/evidence"));
    let evals: u64 = stats.iter().map(|s| s.0).sum();
    let mut fams = Vec::new();
    let mut samples = Vec::new();
    for (i, f) in families.iter().enumerate() {
        let (n, nt, w) = stats.get(i).copied().unwrap_or((0, 0, 0.0));
        fams.push(format!(
            "{{\"family\": {}, \"bound\": {}, \"size\": {}, \"executed\": {n}, \"nontrivial\": {nt}, \"wall_s\": {w:.3}}}",
            json_str(&f.name),
            json_str(&f.bound),
            f.size
        ));
        if f.size > 0 && samples.len() < 12 {
            for ix in [f.size / 2, f.size - 1] {
                let d = guarded(|| (f.describe)(ix)).unwrap_or_default();
                let d: String = d.chars().take(600).collect();
                samples.push(json_str(&format!("{}[{ix}]: {d}", f.name)));
            }
        }
    }
    let outc: Vec<String> =
        obs.outcomes.iter().map(|(k, v)| format!("{}: {v}", json_str(k))).collect();
    let kn: Vec<String> = obs.known.iter().map(|(k, v)| format!("{}: {v}", json_str(k))).collect();
    let asm: Vec<String> = check.assumptions.iter().map(|a| json_str(a)).collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let body = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {evals},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"states\": {},\n  \"states_beyond_set_cap\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"exhaustive\": {},\n  \"families\": [\n   {}\n  ],\n  \"outcomes\": {{{}}},\n  \"known_findings_hit\": {{{}}},\n  \"samples\": [\n   {}\n  ]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {viol}\n}}\n",
        json_str(check.id),
        json_str(if tier == Tier::Quick { "quick" } else { "thorough" }),
        json_str(check.level),
        obs.nontrivial,
        json_str(check.rule),
        obs.states.len(),
        obs.states_overflow,
        obs.transitions,
        obs.traces,
        !not_exhaustive,
        fams.join(",\n   "),
        outc.join(", "),
        kn.join(", "),
        samples.join(",\n   "),
        asm.join(", "),
        start.elapsed().as_secs_f64(),
    );
    let path = format!("{root}/evidence/{}.json", check.id);
    if let Err(e) = std::fs::write(&path, body) {
        eprintln!("cannot write {path}: {e}");
    }
}

fn one(check: &Check, tier: Tier, fam: &str, idx: u64, verbose: bool) -> i32 {
    let families = (check.families)(tier);
    let Some(f) = families.iter().find(|f| f.name == fam) else {
        eprintln!("no family {fam}");
        return 2;
    };
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, || {
                let mut obs = Obs { verbose, ..Default::default() };
                run_case(f, idx, &mut obs)
            })
            .expect("spawn")
            .join()
            .expect("join")
    });
    match r {
        Ok(()) => {
            println!("case {fam}[{idx}] holds: {}", (f.describe)(idx));
            0
        }
        Err(e) => {
            println!("case {fam}[{idx}]: {}", (f.describe)(idx));
            println!("{}", e.msg);
            if let Some(k) = e.key {
                println!("key: {k}");
            }
            1
        }
    }
}

/// Entry point of a check binary: `<id> quick|thorough` or `<id> replay <file>`.
pub fn main(checks: &[Check]) -> ! {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("list") {
        for c in checks {
            println!("{}", c.id);
        }
        std::process::exit(0);
    }
    let Some(check) = args.get(1).and_then(|id| checks.iter().find(|c| c.id == id)) else {
        eprintln!("usage: {} <property> quick|thorough|replay <file>|one <family> <idx>", args[0]);
        std::process::exit(2);
    };
    let mode = args.get(2).map(|s| s.as_str()).unwrap_or("quick");
    if mode == "replay" {
        let t = std::fs::read_to_string(&args[3]).expect("replay file");
        let fam = json_field(&t, "family").expect("family");
        let idx: u64 = json_field(&t, "index").expect("index").parse().expect("index");
        let tier = if json_field(&t, "tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
        std::process::exit(one(check, tier, &fam, idx, true));
    }
    let tier = if mode == "thorough" || (mode == "one" && args.get(5).map(|s| s.as_str()) == Some("thorough")) {
        Tier::Thorough
    } else {
        Tier::Quick
    };
    if mode == "one" {
        let idx: u64 = args[4].parse().expect("idx");
        std::process::exit(one(check, tier, &args[3], idx, std::env::var("MC_QUIET").is_err()));
    }
    if let Ok(p) = std::env::var("MC_CELLS") {
        // worker process: bound the address space so a runaway allocation aborts
        unsafe {
            let lim = [26u64 << 30, 26u64 << 30];
            setrlimit(9, &lim);
        }
        std::process::exit(worker(check, tier, &p));
    }

    // supervisor
    let cells_path = format!("{}/mc-cells-{}-{}", std::env::temp_dir().display(), check.id, std::process::id());
    let exe = std::env::current_exe().expect("exe");
    let st = std::process::Command::new(&exe)
        .args(&args[1..])
        .env("MC_CELLS", &cells_path)
        .status()
        .expect("spawn worker");
    let code = match st.code() {
        Some(c @ (0 | 1)) => c,
        other => {
            use std::os::unix::process::ExitStatusExt;
            eprintln!("worker ended abnormally: code {other:?} signal {:?}", st.signal());
            let families = (check.families)(tier);
            let nt = threads();
            let cells = Cells::open(&cells_path, nt);
            let mut verdict = 2;
            for t in 0..nt {
                if cells.at(t, 2).load(Ordering::Relaxed) == 0 {
                    continue;
                }
                let fi = cells.at(t, 0).load(Ordering::Relaxed) as usize;
                let idx = cells.at(t, 1).load(Ordering::Relaxed);
                let Some(f) = families.get(fi) else { continue };
                let r = std::process::Command::new(&exe)
                    .args([check.id, "one", &f.name, &idx.to_string(), mode])
                    .env("MC_QUIET", "1")
                    .stdout(std::process::Stdio::null())
                    .stderr(std::process::Stdio::null())
                    .status();
                if let Ok(r) = r
                    && r.code() != Some(0)
                {
                    let how = match r.code() {
                        Some(1) => "violates the property when run alone".to_string(),
                        c => format!("aborts the process when run alone (code {c:?}, signal {:?})", r.signal()),
                    };
                    report_violation(check, tier, f, idx, &how, 0);
                    write_evidence(check, tier, Instant::now(), &[], &families, &Obs::default(), 1, true);
                    verdict = 1;
                    break;
                }
            }
            verdict
        }
    };
    let _ = std::fs::remove_file(&cells_path);
    std::process::exit(code)
}

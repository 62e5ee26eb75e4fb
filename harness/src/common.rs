//! Exhaustive-exploration driver shared by all checks.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// A failed observation. `key` identifies the failure class/input for the known-findings file.
#[derive(Clone, Debug)]
pub struct Fail {
    pub key: String,
    pub msg: String,
}
pub fn fail<T>(key: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { key: key.into(), msg: msg.into() })
}
#[macro_export]
macro_rules! check {
    ($c:expr, $key:expr, $($fmt:tt)+) => {
        if !($c) { return Err($crate::common::Fail{ key: $key.to_string(), msg: format!($($fmt)+) }); }
    };
}

/// Per-worker record of what was covered.
#[derive(Default)]
pub struct Rec {
    pub states: HashSet<u64>,
    pub transitions: u64,
    pub runs: u64,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub verbose: bool,
    /// record nothing
    pub quiet: bool,
}
impl Rec {
    pub fn state<H: Hash>(&mut self, h: &H) {
        if self.quiet {
            return;
        }
        let mut s = std::collections::hash_map::DefaultHasher::new();
        h.hash(&mut s);
        self.states.insert(s.finish());
    }
    pub fn step(&mut self) {
        self.transitions += 1;
    }
    pub fn count(&mut self, k: &str, n: u64) {
        if self.quiet {
            return;
        }
        if let Some(c) = self.counters.get_mut(k) {
            *c += n
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    fn merge(&mut self, o: Rec) {
        if self.states.is_empty() {
            self.states = o.states;
        } else {
            self.states.extend(o.states);
        }
        self.transitions += o.transitions;
        self.runs += o.runs;
        for (k, v) in o.counters {
            *self.counters.entry(k).or_default() += v;
        }
        for s in o.samples {
            if self.samples.len() < 12 {
                self.samples.push(s)
            }
        }
    }
}

/// A finite tree of cases; every leaf is executed.
pub trait Space: Sync {
    fn name(&self) -> String;
    /// Number of alternatives after `prefix`; 0 means `prefix` is a complete case.
    fn arity(&self, prefix: &[u16]) -> usize;
    fn run(&self, case: &[u16], rec: &mut Rec) -> Result<(), Fail>;
    fn describe(&self, case: &[u16]) -> String {
        format!("{case:?}")
    }
}

pub struct Known {
    pub property: String,
    pub key: String,
    pub what: String,
}

pub struct Run {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub root: std::path::PathBuf,
    pub start: Instant,
    pub budget: Duration,
    known: Vec<Known>,
    replay: Option<String>,
    total: Mutex<Rec>,
    fails: Mutex<Vec<(String, String, Fail)>>, // space, case, fail
    known_hit: Mutex<HashMap<String, u64>>,
    pub assumptions: Mutex<Vec<String>>,
    spaces: Mutex<Vec<String>>,
    truncated: AtomicBool,
    cpu_jobs: usize,
}

const MAXW: usize = 64;
const CASEMAX: usize = 256;
struct Cur {
    started_ms: AtomicU64,
    len: AtomicUsize,
    case: [AtomicUsize; CASEMAX],
    space: AtomicUsize,
}
#[allow(clippy::declare_interior_mutable_const)]
const Z: AtomicUsize = AtomicUsize::new(0);
#[allow(clippy::declare_interior_mutable_const)]
const CUR0: Cur = Cur { started_ms: AtomicU64::new(0), len: AtomicUsize::new(0), case: [Z; CASEMAX], space: AtomicUsize::new(0) };
static CUR: [Cur; MAXW] = [CUR0; MAXW];
static SPACE_NAMES: Mutex<Vec<String>> = Mutex::new(Vec::new());
static mut CRASH_ID: [u8; 16] = [0; 16];
static mut CRASH_PATH: [u8; 512] = [0; 512];
thread_local! {
    static WORKER: Cell<usize> = const { Cell::new(usize::MAX) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
/// Let helper threads report crashes under the worker that spawned them.
pub fn current_worker() -> usize {
    WORKER.with(|w| w.get())
}
/// Start of the run, its time budget, and whether a case was cut short by it.
static LIMIT: std::sync::OnceLock<(Instant, Duration)> = std::sync::OnceLock::new();
static CUT: AtomicBool = AtomicBool::new(false);
/// A sign of life from a case that takes long; false when time is up.
pub fn beat() -> bool {
    let Some((t0, budget)) = LIMIT.get() else { return true };
    let w = WORKER.with(|w| w.get());
    if w < CUR.len() && CUR[w].started_ms.load(Ordering::Relaxed) != 0 {
        CUR[w].started_ms.store(t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
    }
    if t0.elapsed() > *budget {
        CUT.store(true, Ordering::Relaxed);
        return false;
    }
    true
}
pub fn adopt_worker(w: usize) {
    WORKER.with(|x| x.set(w));
}

extern "C" fn crash(sig: i32) {
    unsafe {
        // Several threads may crash at once: the first one reports
        static FIRST: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(0);
        let tid = libc::syscall(libc::SYS_gettid) as i32;
        if let Err(first) = FIRST.compare_exchange(0, tid, Ordering::SeqCst, Ordering::SeqCst) {
            if first == tid {
                libc::_exit(1);
            }
            loop {
                libc::pause();
            }
        }
        let w = WORKER.try_with(|w| w.get()).unwrap_or(usize::MAX);
        let mut buf = [0u8; 4096];
        let mut n = 0;
        let mut put = |s: &[u8]| {
            for b in s {
                if n < buf.len() {
                    buf[n] = *b;
                    n += 1
                }
            }
        };
        fn num(mut v: usize, out: &mut [u8; 20]) -> &[u8] {
            let mut i = 20;
            loop {
                i -= 1;
                out[i] = b'0' + (v % 10) as u8;
                v /= 10;
                if v == 0 {
                    break;
                }
            }
            &out[i..]
        }
        let mut t = [0u8; 20];
        put(b"crash: signal ");
        put(num(sig as usize, &mut t));
        put(b" (memory error or abort) while executing case\ncase: #");
        if w < MAXW {
            let c = &CUR[w];
            put(num(c.space.load(Ordering::Relaxed), &mut t));
            put(b":");
            let l = c.len.load(Ordering::Relaxed).min(CASEMAX);
            for i in 0..l {
                if i > 0 {
                    put(b",")
                }
                put(num(c.case[i].load(Ordering::Relaxed), &mut t));
            }
        }
        put(b"\n");
        let path = &raw const CRASH_PATH as *const libc::c_char;
        let fd = libc::open(path, libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, 0o644);
        if fd >= 0 {
            libc::write(fd, buf.as_ptr() as *const _, n);
            libc::close(fd);
        }
        n = 0;
        let mut put = |s: &[u8]| {
            for b in s {
                if n < buf.len() {
                    buf[n] = *b;
                    n += 1
                }
            }
        };
        let id = &*(&raw const CRASH_ID);
        let idl = id.iter().position(|b| *b == 0).unwrap_or(16);
        let p = &*(&raw const CRASH_PATH);
        let pl = p.iter().position(|b| *b == 0).unwrap_or(0);
        put(b"\nVIOLATION property=");
        put(&id[..idl]);
        put(b" replay=");
        put(&p[..pl]);
        put(b"\n");
        libc::write(1, buf.as_ptr() as *const _, n);
        libc::_exit(1);
    }
}

pub fn install_handlers(id: &str, path: &std::path::Path) {
    unsafe {
        let pid = &mut *(&raw mut CRASH_ID);
        pid[..id.len()].copy_from_slice(id.as_bytes());
        let s = path.to_str().unwrap().as_bytes();
        let pp = &mut *(&raw mut CRASH_PATH);
        pp[..s.len()].copy_from_slice(s);
        // Code that takes memory without end is stopped by an abort, which is reported
        let lim = libc::rlimit { rlim_cur: 20 << 30, rlim_max: 20 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        for sig in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = crash as *const () as usize;
            sa.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER;
            libc::sigaction(sig, &sa, std::ptr::null_mut());
        }
    }
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panic at {loc}: {m}"));
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}
/// Runs `f`, turning a panic into an Err with its message.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

impl Run {
    pub fn new(id: &str, tier: Tier, root: std::path::PathBuf, replay: Option<String>) -> Run {
        let known = std::fs::read_to_string(root.join("known_findings.txt"))
            .unwrap_or_default()
            .lines()
            .filter_map(|l| {
                let l = l.strip_prefix("finding: ")?;
                let mut it = l.splitn(3, ' ');
                Some(Known {
                    property: it.next()?.strip_prefix("property=")?.into(),
                    key: it.next()?.strip_prefix("key=")?.into(),
                    what: it.next()?.into(),
                })
            })
            .collect();
        let jobs = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(MAXW);
        Run {
            id: id.into(),
            tier,
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            root,
            start: Instant::now(),
            budget: Duration::from_secs(match tier {
                Tier::Quick => 400,
                Tier::Thorough => 3 * 3600,
            }),
            known,
            replay,
            total: Mutex::new(Rec::default()),
            fails: Mutex::new(vec![]),
            known_hit: Mutex::new(HashMap::new()),
            assumptions: Mutex::new(vec![]),
            spaces: Mutex::new(vec![]),
            truncated: AtomicBool::new(false),
            cpu_jobs: jobs,
        }
    }
    /// Make `beat` known to the scheduler.
    fn set_limit(&self) {
        if self.replay.is_none() {
            let _ = LIMIT.set((self.start, self.budget));
        }
        let _ = mcsched::BEAT.set(beat);
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() { thorough } else { quick }
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.into())
    }
    fn is_known(&self, key: &str) -> bool {
        self.known.iter().any(|k| k.property == self.id && k.key == key)
    }
    fn stop(&self) -> bool {
        self.fails.lock().unwrap().len() >= 5
    }
    pub fn one(&self, space: &dyn Space, sidx: usize, w: usize, case: &[u16], rec: &mut Rec) {
        let c = &CUR[w];
        c.space.store(sidx, Ordering::Relaxed);
        c.len.store(case.len(), Ordering::Relaxed);
        for (i, v) in case.iter().enumerate().take(CASEMAX) {
            c.case[i].store(*v as usize, Ordering::Relaxed);
        }
        c.started_ms.store(self.start.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
        let r = catch_unwind(AssertUnwindSafe(|| space.run(case, rec)));
        c.started_ms.store(0, Ordering::Relaxed);
        rec.runs += 1;
        let f = match r {
            Ok(Ok(())) => return,
            Ok(Err(f)) => f,
            Err(_) => Fail { key: "panic".into(), msg: last_panic() },
        };
        if self.is_known(&f.key) {
            *self.known_hit.lock().unwrap().entry(f.key.clone()).or_default() += 1;
            return;
        }
        let cs = case.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(",");
        let mut fl = self.fails.lock().unwrap();
        if fl.len() < 50 {
            let d = space.describe(case);
            fl.push((space.name(), format!("{}\n{}", cs, d), f));
        }
    }
    /// Execute every case of `space`.
    pub fn explore(&self, space: &dyn Space) {
        let sidx = {
            let mut n = SPACE_NAMES.lock().unwrap();
            n.push(space.name());
            n.len() - 1
        };
        if let Some(r) = &self.replay {
            let (sn, cs) = r.rsplit_once(':').unwrap_or((r, ""));
            if sn == space.name() || sn == format!("#{sidx}") {
                let case: Vec<u16> = cs.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
                let mut rec = Rec { verbose: true, ..Default::default() };
                println!("replaying {}:\n{}", space.name(), space.describe(&case));
                adopt_worker(0);
                self.one(space, sidx, 0, &case, &mut rec);
                self.total.lock().unwrap().merge(rec);
            }
            return;
        }
        if self.stop() {
            return;
        }
        // Split the tree into jobs.
        let t0 = Instant::now();
        let mut prefixes: Vec<(Vec<u16>, bool)> = vec![(vec![], false)];
        loop {
            if prefixes.len() >= 64 * self.cpu_jobs || prefixes.iter().all(|p| p.1) {
                break;
            }
            let mut next = Vec::with_capacity(prefixes.len() * 4);
            for (p, leaf) in prefixes {
                if leaf {
                    next.push((p, true));
                    continue;
                }
                let n = space.arity(&p);
                if n == 0 {
                    next.push((p, true));
                    continue;
                }
                for i in 0..n {
                    let mut q = p.clone();
                    q.push(i as u16);
                    next.push((q, false));
                }
            }
            prefixes = next;
        }
        self.set_limit();
        let next = AtomicUsize::new(0);
        let done = AtomicBool::new(false);
        let jobs = self.cpu_jobs.min(prefixes.len()).max(1);
        let finished = AtomicUsize::new(0);
        let mut runs0 = 0;
        std::thread::scope(|sc| {
            let hs: Vec<_> = (0..jobs)
                .map(|w| {
                    let (prefixes, next, finished) = (&prefixes, &next, &finished);
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(sc, move || {
                            adopt_worker(w);
                            altstack();
                            let mut rec = Rec::default();
                            loop {
                                let j = next.fetch_add(1, Ordering::Relaxed);
                                if j >= prefixes.len() || self.stop() {
                                    break;
                                }
                                if self.start.elapsed() > self.budget {
                                    self.truncated.store(true, Ordering::Relaxed);
                                    break;
                                }
                                let mut case = prefixes[j].0.clone();
                                if rec.samples.len() < 2 {
                                    let mut c = case.clone();
                                    loop {
                                        let n = space.arity(&c);
                                        if n == 0 {
                                            break;
                                        }
                                        c.push(((j + c.len()) % n) as u16);
                                    }
                                    rec.samples.push(format!("{}: {}", space.name(), space.describe(&c)));
                                }
                                self.dfs(space, sidx, w, &mut case, &mut rec);
                            }
                            finished.fetch_add(1, Ordering::Relaxed);
                            rec
                        })
                        .unwrap()
                })
                .collect();
            // watchdog
            sc.spawn(|| {
                while finished.load(Ordering::Relaxed) < jobs {
                    std::thread::sleep(Duration::from_millis(20));
                    let now = self.start.elapsed().as_millis() as u64;
                    for (w, c) in CUR.iter().enumerate().take(jobs) {
                        let s = c.started_ms.load(Ordering::Relaxed);
                        if s != 0 && now > s + 90_000 {
                            let case: Vec<String> = (0..c.len.load(Ordering::Relaxed)).map(|i| c.case[i].load(Ordering::Relaxed).to_string()).collect();
                            let _ = w;
                            let p = self.write_replay(0, &space.name(), &case.join(","), "hang", "the case did not finish within 90 s (deadlock or endless loop)");
                            println!("\nVIOLATION property={} replay={}", self.id, p);
                            std::process::exit(1);
                        }
                    }
                }
            });
            let mut tot = self.total.lock().unwrap();
            for h in hs {
                let r = h.join().unwrap();
                runs0 += r.runs;
                tot.merge(r);
            }
            done.store(true, Ordering::Relaxed);
        });
        let line = format!("{}: {} cases in {:.1}s", space.name(), runs0, t0.elapsed().as_secs_f64());
        println!("  {line}");
        self.spaces.lock().unwrap().push(line);
    }
    fn dfs(&self, space: &dyn Space, sidx: usize, w: usize, case: &mut Vec<u16>, rec: &mut Rec) {
        let n = space.arity(case);
        if n == 0 {
            self.one(space, sidx, w, case, rec);
            return;
        }
        for i in 0..n {
            if self.fails.lock().unwrap().len() >= 5 {
                return;
            }
            case.push(i as u16);
            self.dfs(space, sidx, w, case, rec);
            case.pop();
        }
    }
    fn write_replay(&self, i: usize, space: &str, case: &str, key: &str, msg: &str) -> String {
        let dir = self.root.join("evidence/replays");
        let _ = std::fs::create_dir_all(&dir);
        let v = variant().unwrap_or_default();
        let p = dir.join(format!("{}-{}{}.txt", self.id, v.replace(':', "-"), i));
        let _ = std::fs::write(
            &p,
            format!("property: {}\nspace: {}\ncase: {}\nkey: {}\nmessage: {}\nrerun: ./check.sh {} quick --case '{}{}:{}'\n", self.id, space, case, key, msg, self.id, v, space, case.lines().next().unwrap_or("")),
        );
        p.to_str().unwrap().to_string()
    }
    /// Write evidence and report; returns the exit code.
    pub fn finish(&self) -> i32 {
        let tot = self.total.lock().unwrap();
        let fails = self.fails.lock().unwrap();
        let known = self.known_hit.lock().unwrap();
        for k in &self.known {
            if k.property == self.id {
                println!("KNOWN-FINDING: property={} {} [{}; seen {} times in this run]", self.id, k.what, k.key, known.get(&k.key).copied().unwrap_or(0));
            }
        }
        let mut printed = HashSet::new();
        for (i, (space, case, f)) in fails.iter().enumerate() {
            if !printed.insert(f.key.clone()) && i > 2 {
                continue;
            }
            let p = self.write_replay(i, space, case, &f.key, &f.msg);
            println!("--- {} case {}\n    {}: {}", space, case, f.key, f.msg);
            println!("VIOLATION property={} replay={}", self.id, p);
        }
        // the same check on the crates built with other features: a process of its own, which prints what it finds
        let mut vfails = 0;
        let mut vtrunc = false;
        let mut tot = tot;
        if let (None, Ok(exe), None) = (variant(), std::env::var("MC_ALSO"), &self.replay) {
            let tier = if self.thorough() { "thorough" } else { "quick" };
            let note = self.root.join(format!("target/{}-variant.txt", self.id));
            let _ = std::fs::remove_file(&note);
            let rc = std::process::Command::new(&exe).args([&self.id, tier]).arg(&self.root).env("MC_VARIANT", "nodenormals:").env("MC_NOTE", &note).status();
            let told = std::fs::read_to_string(&note).unwrap_or_default();
            let n: Vec<u64> = told.split_whitespace().filter_map(|x| x.parse().ok()).collect();
            match (rc.ok().and_then(|x| x.code()), n.as_slice()) {
                (Some(0), [states, transitions, runs, trunc]) => {
                    // the states are those of the other build again, which this check doesn't count twice
                    tot.transitions += transitions;
                    tot.runs += runs;
                    *tot.counters.entry("runs with the feature no_denormals".into()).or_default() += runs;
                    *tot.counters.entry("states with the feature no_denormals".into()).or_default() += states;
                    vtrunc = *trunc != 0;
                }
                (Some(1), _) => vfails = 1,
                (rc, _) => {
                    // a crash of that process is reported by its own handlers
                    println!("{}: the run with the feature no_denormals ended with {:?}", self.id, rc);
                    return rc.unwrap_or(2).max(1);
                }
            }
        }
        if vtrunc {
            self.truncated.store(true, Ordering::Relaxed);
        }
        if let Ok(note) = std::env::var("MC_NOTE") {
            let cut = CUT.load(Ordering::Relaxed) || self.truncated.load(Ordering::Relaxed);
            let _ = std::fs::write(note, format!("{} {} {} {}", tot.states.len(), tot.transitions, tot.runs, cut as u8));
        }
        let q = |s: &str| json_str(s);
        let mut j = String::new();
        j.push_str(&format!(
            "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{",
            q(&self.id),
            q(if self.thorough() { "thorough" } else { "quick" }),
            self.seed
        ));
        if CUT.load(Ordering::Relaxed) {
            self.truncated.store(true, Ordering::Relaxed);
        }
        j.push_str(&format!(
            "\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"exhaustive\":{},",
            tot.states.len(),
            tot.transitions,
            tot.runs,
            !self.truncated.load(Ordering::Relaxed) && fails.is_empty() && vfails == 0
        ));
        j.push_str(&format!("\"spaces\":[{}],", self.spaces.lock().unwrap().iter().map(|s| q(s)).collect::<Vec<_>>().join(",")));
        j.push_str(&format!("\"counters\":{{{}}},", tot.counters.iter().map(|(k, v)| format!("{}:{}", q(k), v)).collect::<Vec<_>>().join(",")));
        j.push_str(&format!("\"samples\":[{}]", tot.samples.iter().map(|s| q(s)).collect::<Vec<_>>().join(",")));
        j.push_str(&format!(
            "}},\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{}}}\n",
            self.assumptions.lock().unwrap().iter().map(|s| q(s)).collect::<Vec<_>>().join(","),
            self.start.elapsed().as_secs_f64(),
            fails.len() + vfails
        ));
        if self.replay.is_none() && variant().is_none() {
            let _ = std::fs::create_dir_all(self.root.join("evidence"));
            let mut f = std::fs::File::create(self.root.join(format!("evidence/{}.json", self.id))).unwrap();
            f.write_all(j.as_bytes()).unwrap();
        }
        println!(
            "{}: states={} transitions={} runs={} violations={} truncated={} wall={:.1}s",
            self.id,
            tot.states.len(),
            tot.transitions,
            tot.runs,
            fails.len(),
            self.truncated.load(Ordering::Relaxed),
            self.start.elapsed().as_secs_f64()
        );
        if tot.runs == 0 {
            println!("error: nothing was explored");
            return 2;
        }
        if fails.is_empty() && vfails == 0 { 0 } else { 1 }
    }
}
/// The prefix of the cases of a run of the crates built with other features than the usual ones.
fn variant() -> Option<String> {
    std::env::var("MC_VARIANT").ok()
}
fn altstack() {
    unsafe {
        let sz = 64 * 1024;
        let mem = libc::mmap(std::ptr::null_mut(), sz, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        let ss = libc::stack_t { ss_sp: mem, ss_flags: 0, ss_size: sz };
        libc::sigaltstack(&ss, std::ptr::null_mut());
    }
}
fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// A product space: position i takes one of `dims[i]` values.
pub struct Product<F> {
    pub name: String,
    pub dims: Vec<usize>,
    pub f: F,
    pub d: fn(&[u16]) -> String,
}
impl<F: Fn(&[u16], &mut Rec) -> Result<(), Fail> + Sync> Space for Product<F> {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn arity(&self, p: &[u16]) -> usize {
        self.dims.get(p.len()).copied().unwrap_or(0)
    }
    fn run(&self, c: &[u16], rec: &mut Rec) -> Result<(), Fail> {
        (self.f)(c, rec)
    }
    fn describe(&self, c: &[u16]) -> String {
        (self.d)(c)
    }
}

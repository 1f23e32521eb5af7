//! Exhaustive exploration of choice sequences (stateless DFS, run on all cores).
//!
//! A *family* is a function that asks for choices (`Ch::choose(n)`, `Ch::dev(n)`), builds one
//! behaviour of the real code from them and compares it with a reference model. The engine executes the
//! function once for every possible sequence of answers. `dev` choices cost one deviation when
//! the answer is not 0; a family has a deviation bound, so big products can be explored
//! "all combinations with at most k departures from the default".
//!
//! The process is split into a supervisor and a worker process: if the code under test takes the whole
//! process down (abort, stack overflow), the supervisor re-executes the behaviours which were in
//! flight and reports the one that does it again.

use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// A property violation: a stable key (for the known-findings file) and a description.
#[derive(Clone, Debug)]
pub struct Fail {
    pub key: String,
    pub msg: String,
}
pub type Res<T = ()> = Result<T, Fail>;
pub fn fail<T>(key: &str, msg: impl Into<String>) -> Res<T> {
    Err(Fail { key: key.to_string(), msg: msg.into() })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $key:expr, $($arg:tt)*) => { if !($c) { return $crate::fail($key, format!($($arg)*)); } };
}

thread_local! {
    static IN_REAL: Cell<u32> = const { Cell::new(0) };
    static LAST_PANIC: RefCell<(String, String)> = const { RefCell::new((String::new(), String::new())) };
}

/// Calls into the code under test; a panic becomes `Err(description)`.
pub fn real_raw<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    IN_REAL.with(|c| c.set(c.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_REAL.with(|c| c.set(c.get() - 1));
    r.map_err(|p| panic_text(&p))
}
/// Calls into the code under test; a panic is a violation.
pub fn real<T>(what: &str, f: impl FnOnce() -> T) -> Res<T> {
    real_raw(f).map_err(|e| Fail { key: format!("panic:{what}"), msg: format!("{what} panicked: {e}") })
}
fn panic_text(p: &Box<dyn Any + Send>) -> String {
    let m = p
        .downcast_ref::<&str>()
        .map(|s| s.to_string())
        .or_else(|| p.downcast_ref::<String>().cloned())
        .unwrap_or_else(|| "?".into());
    let loc = LAST_PANIC.with(|l| l.borrow().0.clone());
    format!("{m} (at {loc})")
}

/// The choices of one execution.
pub struct Ch {
    script: Vec<u32>,
    log: Vec<(u32, u32)>,
    devs_left: u32,
    diverged: bool,
}
impl Ch {
    fn new(script: Vec<u32>, devs: u32) -> Self {
        Ch { script, log: vec![], devs_left: devs, diverged: false }
    }
    /// A source of choices that always answers 0 to deviations (for canonical rendering).
    pub fn canonical() -> Self {
        Ch::new(vec![], 0)
    }
    /// A free choice among `n` alternatives.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "choose(0)");
        let i = self.log.len();
        let c = if i < self.script.len() { self.script[i] } else { 0 };
        if c as usize >= n {
            self.diverged = true;
            panic!("replay divergence: choice {c} of {n} at {i}");
        }
        self.log.push((c, n as u32));
        c as usize
    }
    /// A choice where everything but alternative 0 costs one deviation.
    pub fn dev(&mut self, n: usize) -> usize {
        if self.devs_left == 0 {
            return 0;
        }
        let c = self.choose(n);
        if c != 0 {
            self.devs_left -= 1;
        }
        c
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.choose(xs.len())]
    }
    pub fn pick_dev<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.dev(xs.len())]
    }
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    pub fn flag_dev(&mut self) -> bool {
        self.dev(2) == 1
    }
    pub fn devs_left(&self) -> u32 {
        self.devs_left
    }
}

const SHARDS: usize = 64;
const STATE_CAP: usize = 30_000_000;
struct Shared {
    states: Vec<Mutex<HashSet<u64>>>,
    n_states: AtomicUsize,
    outcomes: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<String>>,
}
impl Shared {
    fn new() -> Self {
        Shared {
            states: (0..SHARDS).map(|_| Mutex::new(HashSet::new())).collect(),
            n_states: AtomicUsize::new(0),
            outcomes: Mutex::new(BTreeMap::new()),
            samples: Mutex::new(vec![]),
        }
    }
}

/// Bookkeeping of one execution.
pub struct Case<'a> {
    sh: &'a Shared,
    trans: u64,
    traces: u64,
    desc: String,
    outs: BTreeMap<String, u64>,
    ordinal: u64,
}
impl Case<'_> {
    /// Counts a distinct state (of the model / of the input space) reached.
    pub fn state(&mut self, s: &impl Hash) {
        let mut h = Fnv(0xcbf29ce484222325);
        s.hash(&mut h);
        let mut v = h.finish();
        v ^= v >> 29;
        v = v.wrapping_mul(0x9E3779B97F4A7C15);
        if self.sh.n_states.load(Relaxed) < STATE_CAP && self.sh.states[(v >> 58) as usize % SHARDS].lock().unwrap().insert(v) {
            self.sh.n_states.fetch_add(1, Relaxed);
        }
    }
    /// Counts real operations performed (transitions taken by the code under test).
    pub fn trans(&mut self, n: u64) {
        self.trans += n;
    }
    /// Counts one model trace compared with the implementation.
    pub fn trace(&mut self) {
        self.traces += 1;
    }
    pub fn traces(&mut self, n: u64) {
        self.traces += n;
    }
    /// Tallies the kind of outcome (reported in the evidence, to expose vacuous exploration).
    pub fn outcome(&mut self, s: &str) {
        if let Some(x) = self.outs.get_mut(s) {
            *x += 1
        } else {
            self.outs.insert(s.to_string(), 1);
        }
    }
    /// Describes the behaviour being explored (kept for samples and violations).
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        let _ = self.ordinal;
        self.desc = f();
    }
    /// As `describe`, but evaluated only for a few cases that will be kept as samples.
    pub fn describe_lazy(&mut self, f: impl FnOnce() -> String) {
        if DESCRIBE_ALL.load(Relaxed) || self.ordinal < 3 || self.ordinal.is_power_of_two() {
            self.desc = f();
        }
    }
}
static DESCRIBE_ALL: AtomicBool = AtomicBool::new(false);

struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.0 = (self.0 ^ x as u64).wrapping_mul(0x100000001b3);
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(23) ^ x).wrapping_mul(0x9E3779B97F4A7C15);
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u16(&mut self, x: u16) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
}

type FamFn<'f> = Box<dyn Fn(&mut Ch, &mut Case) -> Res + Sync + Send + 'f>;
struct Family<'f> {
    name: String,
    bound_text: String,
    devs: u32,
    f: FamFn<'f>,
}

/// One property's check.
pub struct Check<'f> {
    pub prop: &'static str,
    pub thorough: bool,
    fams: Vec<Family<'f>>,
    assumptions: Vec<String>,
    cap_s: f64,
    hang_s: u64,
}

struct Item {
    prefix: Vec<u32>,
    lo: u32,
    hi: u32,
}

#[derive(Clone)]
struct Violation {
    family: String,
    choices: Vec<u32>,
    fail: Fail,
    desc: String,
}

enum RunOut {
    Ok,
    Fail(Fail),
    Engine(String),
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

impl<'f> Check<'f> {
    pub fn new(prop: &'static str) -> Self {
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
            || std::env::args().any(|a| a == "--thorough");
        Check {
            prop,
            thorough,
            fams: vec![],
            assumptions: vec![],
            cap_s: if thorough { 7200.0 } else { 400.0 },
            hang_s: 60,
        }
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }
    /// Chooses a bound by tier.
    pub fn tier<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough { thorough } else { quick }
    }
    /// Adds a family of behaviours. `bound` says in words what is enumerated.
    pub fn family(
        &mut self,
        name: &str,
        bound: &str,
        devs: u32,
        f: impl Fn(&mut Ch, &mut Case) -> Res + Sync + Send + 'f,
    ) {
        self.fams.push(Family { name: name.into(), bound_text: bound.into(), devs, f: Box::new(f) });
    }

    fn run_one(fam: &Family, sh: &Shared, script: Vec<u32>, ordinal: u64) -> (Ch, u64, u64, String, BTreeMap<String, u64>, RunOut) {
        let mut ch = Ch::new(script, fam.devs);
        let mut case = Case { sh, trans: 0, traces: 0, desc: String::new(), outs: BTreeMap::new(), ordinal };
        let r = catch_unwind(AssertUnwindSafe(|| (fam.f)(&mut ch, &mut case)));
        let in_real = IN_REAL.with(|c| c.replace(0)) > 0;
        let out = match r {
            Ok(Ok(())) => RunOut::Ok,
            Ok(Err(e)) => RunOut::Fail(e),
            Err(p) => {
                let loc = LAST_PANIC.with(|l| l.borrow().0.clone());
                let t = panic_text(&p);
                // Only a panic raised by the code under test is a verdict.
                if !ch.diverged && (in_real || !(loc.starts_with("src/") || loc.contains("/rustc/"))) {
                    RunOut::Fail(Fail { key: "panic".into(), msg: format!("panic in code under test: {t}") })
                } else {
                    RunOut::Engine(t)
                }
            }
        };
        let (t, tr, d, o) = (case.trans, case.traces, case.desc, case.outs);
        (ch, t, tr, d, o, out)
    }

    /// Runs everything and exits the process with the verdict.
    pub fn run(self) -> ! {
        let args: Vec<String> = std::env::args().collect();
        if let Some(i) = args.iter().position(|a| a == "--replay") {
            self.replay(&args[i + 1]);
        }
        if args.iter().any(|a| a == "--worker") {
            self.worker()
        } else {
            self.supervise(&args)
        }
    }

    fn install_hook() {
        std::panic::set_hook(Box::new(|info| {
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            LAST_PANIC.with(|l| *l.borrow_mut() = (loc, String::new()));
        }));
    }

    fn replay(self, file: &str) -> ! {
        Self::install_hook();
        DESCRIBE_ALL.store(true, Relaxed);
        let txt = std::fs::read_to_string(file).expect("replay file");
        let mut fam = String::new();
        let mut choices = vec![];
        for l in txt.lines() {
            if let Some(x) = l.strip_prefix("family=") {
                fam = x.to_string();
            }
            if let Some(x) = l.strip_prefix("choices=") {
                choices = x.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
            }
        }
        let f = self.fams.iter().find(|f| f.name == fam).expect("unknown family (same tier needed)");
        let sh = Shared::new();
        let (_, _, _, desc, _, out) = Self::run_one(f, &sh, choices, 0);
        println!("{desc}");
        match out {
            RunOut::Ok => {
                println!("replay: no violation");
                std::process::exit(0)
            }
            RunOut::Fail(e) => {
                println!("replay: [{}] {}", e.key, e.msg);
                println!("VIOLATION property={} replay={}", self.prop, file);
                std::process::exit(1)
            }
            RunOut::Engine(e) => {
                println!("replay: engine error: {e}");
                std::process::exit(2)
            }
        }
    }

    fn inflight_path(&self) -> String {
        format!("{}/replays/.inflight-{}-{}", verif_dir(), self.prop, std::process::id())
    }

    fn supervise(self, args: &[String]) -> ! {
        use std::os::unix::process::ExitStatusExt;
        let _ = std::fs::create_dir_all(format!("{}/replays", verif_dir()));
        let _ = std::fs::create_dir_all(format!("{}/evidence", verif_dir()));
        let t0 = Instant::now();
        let inflight = self.inflight_path();
        let exe = std::env::current_exe().unwrap();
        let st = std::process::Command::new(&exe)
            .args(&args[1..])
            .arg("--worker")
            .env("MC_INFLIGHT", &inflight)
            .status()
            .expect("spawn worker");
        let code = match (st.code(), st.signal()) {
            (Some(c), _) => c,
            (None, Some(sig)) if [4, 6, 7, 8, 11].contains(&sig) => {
                // The process was taken down. Re-execute what was in flight, one by one.
                eprintln!("worker ended by signal {sig}; re-executing the behaviours in flight");
                let txt = std::fs::read_to_string(&inflight).unwrap_or_default();
                let mut code = 3;
                for (k, line) in txt.split('\n').enumerate() {
                    let line = line.trim_matches(|c: char| c == '\0' || c == ' ');
                    let Some((fam, choices)) = line.split_once('|') else { continue };
                    let file = format!("{}/replays/{}-crash{}.txt", verif_dir(), self.prop, k);
                    std::fs::write(
                        &file,
                        format!("property={}\nfamily={fam}\nchoices={choices}\n# the process is killed by a signal\n", self.prop),
                    )
                    .unwrap();
                    let st = std::process::Command::new(&exe).arg("--replay").arg(&file).args(&args[1..]).status().expect("spawn");
                    if st.code().is_none() || st.code() == Some(1) {
                        println!("the code under test ends the process (signal {:?}) on this behaviour: {fam} [{choices}]", st.signal());
                        println!("VIOLATION property={} replay={}", self.prop, file);
                        let ev = format!(
                            "{{\"property\":\"{}\",\"tier\":\"{}\",\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":0,\"transitions\":0,\"traces_validated_against_impl\":0,\"samples\":[{}],\"exhaustive\":false}},\"wall_s\":{:.2},\"violations\":1}}",
                            self.prop, if self.thorough { "thorough" } else { "quick" }, seed(), js(line), t0.elapsed().as_secs_f64());
                        let _ = std::fs::write(format!("{}/evidence/{}.json", verif_dir(), self.prop), ev);
                        code = 1;
                        break;
                    }
                }
                code
            }
            (None, s) => {
                eprintln!("worker killed by signal {s:?}");
                3
            }
        };
        let _ = std::fs::remove_file(&inflight);
        std::process::exit(code)
    }

    fn known(&self) -> Vec<String> {
        let txt = std::fs::read_to_string(format!("{}/known_findings.txt", verif_dir())).unwrap_or_default();
        let pre = format!("known: property={} key=", self.prop);
        txt.lines().filter_map(|l| l.strip_prefix(&pre)).map(|l| l.split(" -- ").next().unwrap().trim().to_string()).collect()
    }

    fn worker(self) -> ! {
        Self::install_hook();
        let t0 = Instant::now();
        let n_thr = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 16);
        let inflight = std::env::var("MC_INFLIGHT").ok().and_then(|p| std::fs::File::create(p).ok());
        let known = self.known();
        let only: Option<String> = std::env::args().skip_while(|a| a != "--family").nth(1);

        let mut violations: Vec<Violation> = vec![];
        let mut known_hits: BTreeMap<String, (u64, String)> = BTreeMap::new();
        let mut engine_err: Option<String> = None;
        let (mut states, mut trans, mut traces, mut execs) = (0u64, 0u64, 0u64, 0u64);
        let mut fam_json = vec![];
        let mut samples_all = vec![];
        let mut capped_any = false;

        for fam in &self.fams {
            if let Some(o) = &only {
                if &fam.name != o {
                    continue;
                }
            }
            let ft0 = Instant::now();
            let sh = Shared::new();
            let global: Mutex<Vec<Item>> = Mutex::new(vec![Item { prefix: vec![], lo: u32::MAX, hi: u32::MAX }]);
            let waiting = AtomicUsize::new(0);
            let hungry = AtomicUsize::new(0);
            let stop = AtomicBool::new(false);
            let capped = AtomicBool::new(false);
            let n_exec = AtomicU64::new(0);
            let n_trans = AtomicU64::new(0);
            let n_traces = AtomicU64::new(0);
            let viol: Mutex<Vec<Violation>> = Mutex::new(vec![]);
            let khits: Mutex<BTreeMap<String, (u64, String)>> = Mutex::new(BTreeMap::new());
            let eng: Mutex<Option<String>> = Mutex::new(None);
            let cur: Vec<Mutex<(Instant, Vec<u32>, bool)>> =
                (0..n_thr).map(|_| Mutex::new((Instant::now(), vec![], false))).collect();
            let done = AtomicBool::new(false);
            let cap_left = self.cap_s - t0.elapsed().as_secs_f64();

            std::thread::scope(|s| {
                // watchdog
                let (cur_r, done_r, fam_r) = (&cur, &done, &fam);
                let (hang_s, prop) = (self.hang_s, self.prop);
                s.spawn(move || {
                    while !done_r.load(Acquire) {
                        std::thread::sleep(Duration::from_millis(20));
                        for c in cur_r {
                            let g = c.lock().unwrap();
                            if g.2 && g.0.elapsed().as_secs() > hang_s {
                                let v = Violation {
                                    family: fam_r.name.clone(),
                                    choices: g.1.clone(),
                                    fail: Fail { key: "hang".into(), msg: format!("no answer for {hang_s} s") },
                                    desc: String::new(),
                                };
                                let p = write_replay(prop, &v, 0);
                                println!("[hang] one behaviour of family {} has been running for {hang_s} s", fam_r.name);
                                println!("VIOLATION property={prop} replay={p}");
                                let ev = format!(
                                    "{{\"property\":\"{prop}\",\"tier\":\"quick\",\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":0,\"transitions\":0,\"traces_validated_against_impl\":0,\"samples\":[\"hang\"],\"exhaustive\":false}},\"wall_s\":{hang_s},\"violations\":1}}", seed());
                                let _ = std::fs::write(format!("{}/evidence/{prop}.json", verif_dir()), ev);
                                std::process::exit(1);
                            }
                        }
                    }
                });
                let handles: Vec<_> = (0..n_thr)
                    .map(|w| {
                        let (global, waiting, hungry, stop, capped) = (&global, &waiting, &hungry, &stop, &capped);
                        let (n_exec, n_trans, n_traces, viol, khits, eng, sh, cur) =
                            (&n_exec, &n_trans, &n_traces, &viol, &khits, &eng, &sh, &cur);
                        let (inflight, known) = (&inflight, &known);
                        std::thread::Builder::new()
                            .stack_size(64 << 20)
                            .spawn_scoped(s, move || {
                                let mut local: Vec<Item> = vec![];
                                let mut outs: BTreeMap<String, u64> = BTreeMap::new();
                                'outer: loop {
                                    if stop.load(Relaxed) {
                                        break;
                                    }
                                    // get work
                                    if local.is_empty() {
                                        let mut g = global.lock().unwrap();
                                        if let Some(it) = g.pop() {
                                            local.push(it);
                                        } else {
                                            drop(g);
                                            waiting.fetch_add(1, AcqRel);
                                            hungry.fetch_add(1, AcqRel);
                                            loop {
                                                if stop.load(Relaxed) {
                                                    break 'outer;
                                                }
                                                let mut g = global.lock().unwrap();
                                                if let Some(it) = g.pop() {
                                                    waiting.fetch_sub(1, AcqRel);
                                                    local.push(it);
                                                    break;
                                                }
                                                let all = waiting.load(Acquire) == n_thr;
                                                drop(g);
                                                if all {
                                                    break 'outer;
                                                }
                                                std::thread::sleep(Duration::from_micros(50));
                                            }
                                            hungry.fetch_sub(1, AcqRel);
                                        }
                                    } else if hungry.load(Relaxed) > 0 {
                                        // donate the shallowest work
                                        let mut g = global.lock().unwrap();
                                        if g.len() < n_thr {
                                            if local.len() > 1 {
                                                let k = local.len() / 2;
                                                g.extend(local.drain(..k));
                                            } else if local[0].lo != u32::MAX && local[0].hi - local[0].lo > 1 {
                                                let it = &mut local[0];
                                                let mid = it.lo + (it.hi - it.lo) / 2;
                                                g.push(Item { prefix: it.prefix.clone(), lo: mid, hi: it.hi });
                                                it.hi = mid;
                                            }
                                        }
                                    }
                                    let mut it = local.pop().unwrap();
                                    let script = if it.lo == u32::MAX {
                                        vec![]
                                    } else {
                                        let mut p = it.prefix.clone();
                                        p.push(it.lo);
                                        it.lo += 1;
                                        if it.lo < it.hi {
                                            local.push(it);
                                        }
                                        p
                                    };
                                    let base = script.len();
                                    {
                                        let mut g = cur[w].lock().unwrap();
                                        g.0 = Instant::now();
                                        g.1.clone_from(&script);
                                        g.2 = true;
                                    }
                                    if let Some(f) = inflight {
                                        let mut line = format!("{}|{}", fam.name, fmt_choices(&script));
                                        line.truncate(4000);
                                        while line.len() < 120 {
                                            line.push(' ');
                                        }
                                        line.push('\n');
                                        let _ = f.write_at(line.as_bytes(), w as u64 * 4096);
                                    }
                                    let ord = n_exec.fetch_add(1, Relaxed);
                                    let (ch, t, tr, desc, o, out) = Self::run_one(fam, sh, script, ord);
                                    cur[w].lock().unwrap().2 = false;
                                    n_trans.fetch_add(t, Relaxed);
                                    n_traces.fetch_add(tr, Relaxed);
                                    for (k, v) in o {
                                        *outs.entry(k).or_default() += v;
                                    }
                                    if !desc.is_empty() && (ord < 3 || ord.is_power_of_two()) {
                                        sh.samples.lock().unwrap().push(desc.clone());
                                    }
                                    match out {
                                        RunOut::Ok => {}
                                        RunOut::Fail(e) => {
                                            if known.contains(&e.key) {
                                                let mut k = khits.lock().unwrap();
                                                let x = k.entry(e.key.clone()).or_insert((0, e.msg.clone()));
                                                x.0 += 1;
                                            } else {
                                                let mut v = viol.lock().unwrap();
                                                if v.len() < 4 {
                                                    v.push(Violation {
                                                        family: fam.name.clone(),
                                                        choices: ch.log.iter().map(|x| x.0).collect(),
                                                        fail: e,
                                                        desc,
                                                    });
                                                }
                                                stop.store(true, Relaxed);
                                            }
                                        }
                                        RunOut::Engine(e) => {
                                            let cs: Vec<u32> = ch.log.iter().map(|x| x.0).collect();
                                            *eng.lock().unwrap() = Some(format!("{e} [family {} choices {}]", fam.name, fmt_choices(&cs)));
                                            stop.store(true, Relaxed);
                                        }
                                    }
                                    let full: Vec<u32> = ch.log.iter().map(|x| x.0).collect();
                                    for i in base..ch.log.len() {
                                        if ch.log[i].1 > 1 {
                                            local.push(Item { prefix: full[..i].to_vec(), lo: 1, hi: ch.log[i].1 });
                                        }
                                    }
                                    if ord & 63 == 0 && ft0.elapsed().as_secs_f64() > cap_left {
                                        capped.store(true, Relaxed);
                                        stop.store(true, Relaxed);
                                    }
                                }
                                let mut g = sh.outcomes.lock().unwrap();
                                for (k, v) in outs {
                                    *g.entry(k).or_default() += v;
                                }
                            })
                            .unwrap()
                    })
                    .collect();
                for h in handles {
                    if h.join().is_err() {
                        *eng.lock().unwrap() = Some("engine thread panicked".into());
                    }
                }
                done.store(true, Release);
            });

            let st = sh.n_states.load(Relaxed) as u64;
            states += st;
            trans += n_trans.load(Relaxed);
            traces += n_traces.load(Relaxed);
            execs += n_exec.load(Relaxed);
            let cap = capped.load(Relaxed);
            capped_any |= cap;
            let outs = sh.outcomes.lock().unwrap();
            let samples = sh.samples.lock().unwrap();
            let smp: Vec<String> = samples.iter().rev().take(3).cloned().collect();
            samples_all.extend(smp.iter().cloned());
            eprintln!(
                "[{}] {}: {} executions, {} states, {} transitions, {} traces, {} outcomes{} {:.1}s",
                self.prop, fam.name, n_exec.load(Relaxed), st, n_trans.load(Relaxed), n_traces.load(Relaxed), outs.len(),
                if cap { " (CAPPED)" } else { "" }, ft0.elapsed().as_secs_f64()
            );
            if std::env::var("MC_VERBOSE").is_ok() {
                for (k, v) in outs.iter().take(200) {
                    eprintln!("    {v:>9}  {k}");
                }
                for s in smp.iter() {
                    eprintln!("    sample: {s}");
                }
            }
            let o: Vec<String> = outs.iter().take(60).map(|(k, v)| format!("{}:{}", js(k), v)).collect();
            fam_json.push(format!(
                "{{\"name\":{},\"bound\":{},\"deviations\":{},\"executions\":{},\"states\":{},\"transitions\":{},\"completed\":{},\"wall_s\":{:.2},\"distinct_outcomes\":{},\"outcomes\":{{{}}}}}",
                js(&fam.name), js(&fam.bound_text), fam.devs, n_exec.load(Relaxed), st, n_trans.load(Relaxed), !cap && !stop.load(Relaxed),
                ft0.elapsed().as_secs_f64(), outs.len(), o.join(",")
            ));
            for (k, v) in khits.into_inner().unwrap() {
                let e = known_hits.entry(k).or_insert((0, v.1));
                e.0 += v.0;
            }
            if let Some(e) = eng.into_inner().unwrap() {
                engine_err = Some(e);
                break;
            }
            let vs = viol.into_inner().unwrap();
            if !vs.is_empty() {
                DESCRIBE_ALL.store(true, Relaxed);
                for v in vs {
                    violations.push(Self::shrink(fam, v, &known));
                }
                break; // one broken family is a verdict
            }
        }

        if let Some(e) = engine_err {
            eprintln!("ENGINE ERROR: {e}");
            std::process::exit(3);
        }

        for (k, (n, msg)) in &known_hits {
            println!("KNOWN-FINDING: property={} {} ({} behaviours; e.g. {})", self.prop, k, n, msg.lines().next().unwrap_or(""));
        }
        samples_all.truncate(12);
        let ev = format!(
            "{{\n\"property\":\"{}\",\n\"tier\":\"{}\",\n\"seed\":{},\n\"level\":\"model_checking\",\n\"coverage\":{{\n \"states\":{},\n \"transitions\":{},\n \"traces_validated_against_impl\":{},\n \"executions\":{},\n \"exhaustive\":{},\n \"capped\":{},\n \"known_finding_behaviours\":{},\n \"families\":[\n  {}\n ],\n \"samples\":[{}]\n}},\n\"assumptions\":[{}],\n\"wall_s\":{:.2},\n\"violations\":{}\n}}\n",
            self.prop,
            if self.thorough { "thorough" } else { "quick" },
            seed(),
            states, trans, traces, execs,
            !capped_any && violations.is_empty() && only.is_none(),
            capped_any,
            known_hits.values().map(|v| v.0).sum::<u64>(),
            fam_json.join(",\n  "),
            samples_all.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
            self.assumptions.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
            t0.elapsed().as_secs_f64(),
            violations.len()
        );
        std::fs::write(format!("{}/evidence/{}.json", verif_dir(), self.prop), ev).expect("evidence");
        if !violations.is_empty() {
            for (i, v) in violations.iter().enumerate() {
                let p = write_replay(self.prop, v, i);
                println!("--- {} [{}] family {} choices {}", self.prop, v.fail.key, v.family, fmt_choices(&v.choices));
                println!("{}", v.desc);
                println!("{}", v.fail.msg);
                println!("VIOLATION property={} replay={}", self.prop, p);
            }
            std::process::exit(1);
        }
        println!(
            "{}: held on {} executions ({} states, {} transitions){} in {:.1}s",
            self.prop, execs, states, trans, if capped_any { " [time cap hit]" } else { "" }, t0.elapsed().as_secs_f64()
        );
        std::process::exit(0)
    }

    /// Greedy minimisation: zero choices while the behaviour still violates with the same key.
    fn shrink(fam: &Family, v: Violation, known: &[String]) -> Violation {
        let t0 = Instant::now();
        let sh = Shared::new();
        let mut best = v;
        let mut changed = true;
        if best.fail.key == "hang" {
            return best;
        }
        while changed && t0.elapsed().as_secs_f64() < 4.0 {
            changed = false;
            for i in 0..best.choices.len() {
                if t0.elapsed().as_secs_f64() > 4.0 {
                    break;
                }
                if i >= best.choices.len() || best.choices[i] == 0 {
                    continue;
                }
                let orig = best.choices[i];
                for cand in [0, orig / 2, orig - 1] {
                    if cand >= orig {
                        continue;
                    }
                    let mut c = best.choices.clone();
                    c[i] = cand;
                    let (ch, _, _, desc, _, out) = Self::run_one(fam, &sh, c, 0);
                    if let RunOut::Fail(e) = out {
                        if e.key == best.fail.key && !known.contains(&e.key) {
                            best.choices = ch.log.iter().map(|x| x.0).collect();
                            best.fail = e;
                            best.desc = desc;
                            changed = true;
                            break;
                        }
                    }
                }
            }
        }
        // final replay, twice: the same schedule must fail every time
        let (_, _, _, d, _, out) = Self::run_one(fam, &sh, best.choices.clone(), 0);
        match out {
            RunOut::Fail(e) => {
                best.fail = e;
                best.desc = d;
            }
            _ => best.fail.msg.push_str("\n(note: did not fail again when re-executed)"),
        }
        best
    }
}

fn seed() -> i64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
fn fmt_choices(c: &[u32]) -> String {
    c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
fn write_replay(prop: &str, v: &Violation, i: usize) -> String {
    let p = format!("{}/replays/{}-{}.txt", verif_dir(), prop, i);
    let body = format!(
        "property={}\nfamily={}\nchoices={}\n# key: {}\n# replay with: bash /verif/check.sh {} --replay {}\n{}\n",
        prop, v.family, fmt_choices(&v.choices), v.fail.key, prop, p,
        format!("{}\n{}", v.desc, v.fail.msg).lines().map(|l| format!("# {l}")).collect::<Vec<_>>().join("\n")
    );
    let _ = std::fs::create_dir_all(format!("{}/replays", verif_dir()));
    let _ = std::fs::write(&p, body);
    p
}
/// JSON string literal.
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    let mut n = 0;
    for c in s.chars() {
        n += 1;
        if n > 1500 {
            o.push_str("...");
            break;
        }
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

//! Supervisor and workers: cases are spread over worker processes that run the library under
//! watch; the supervisor decides from what the workers recorded.

use crate::rng::Rng;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::os::unix::io::AsRawFd;
use std::os::unix::process::ExitStatusExt;
use std::panic::{self, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub enum Fail {
    /// the property does not hold
    Violation(String),
    /// the harness itself went wrong
    Harness(String),
    /// the case cannot be judged: what it starts from is a matter of another property
    Skip(String),
}
pub type Res = Result<(), Fail>;

pub fn bad<T, S: Into<String>>(s: S) -> Result<T, Fail> {
    Err(Fail::Violation(s.into()))
}
pub fn skip<T, S: Into<String>>(s: S) -> Result<T, Fail> {
    Err(Fail::Skip(s.into()))
}
pub fn broken<T, S: Into<String>>(s: S) -> Result<T, Fail> {
    Err(Fail::Harness(s.into()))
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Prop {
    pub id: &'static str,
    /// cases in the quick and in the thorough tier
    pub cases: (u64, u64),
    pub run: fn(&mut Ctx) -> Res,
    /// events that must have been observed for a verdict
    pub required: &'static [&'static str],
    /// what makes an observation count as distinct and non-trivial
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

thread_local! {
    static EVENTS: RefCell<BTreeMap<String, u64>> = RefCell::new(BTreeMap::new());
    static IN_LIB: RefCell<Option<String>> = RefCell::new(None);
    static PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn event(name: &str) {
    events(name, 1)
}
pub fn events(name: &str, n: u64) {
    if n == 0 {
        return;
    }
    EVENTS.with(|e| {
        let mut e = e.borrow_mut();
        if let Some(x) = e.get_mut(name) {
            *x += n;
            return;
        }
        e.insert(name.to_string(), n);
    })
}
pub fn take_events() -> BTreeMap<String, u64> {
    EVENTS.with(|e| std::mem::take(&mut *e.borrow_mut()))
}
pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}

/// every call into the library goes through here: it is counted, and a panic is attributed
pub fn lib<T, F: FnOnce() -> T>(name: &str, f: F) -> T {
    event(&format!("call:{}", name));
    let outer = IN_LIB.with(|l| l.borrow_mut().replace(name.to_string()));
    shared(|s| s.in_lib.fetch_add(1, Ordering::SeqCst));
    let x = f();
    shared(|s| s.in_lib.fetch_sub(1, Ordering::SeqCst));
    IN_LIB.with(|l| *l.borrow_mut() = outer);
    x
}

pub struct Ctx {
    pub rng: Rng,
    pub seed: u64,
    pub index: u64,
    pub tier: Tier,
    /// number of oracle decisions
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    /// inputs of the current case, for the replay file
    pub attach: Vec<(String, String)>,
    pub scratch: PathBuf,
    pub isolated: bool,
}

impl Ctx {
    pub fn attach<S: Into<String>>(&mut self, name: &str, text: S) {
        self.attach.push((name.to_string(), text.into()))
    }
    pub fn eval(&mut self) {
        self.evals += 1
    }
    pub fn seen(&mut self, hash: u64) {
        self.distinct.insert(hash);
    }
    pub fn sample<S: Into<String>>(&mut self, s: S) {
        if self.samples.len() < 6 {
            self.samples.push(crate::v::clip(&s.into(), 400))
        }
    }
    /// keep the input of the current case where the supervisor finds it should this process die
    pub fn note(&self, s: &str) {
        if self.isolated {
            let _ = fs::write(self.scratch.join("input"), s);
        }
    }
    /// an empty directory of this case's own
    pub fn dir(&self, name: &str) -> Result<PathBuf, Fail> {
        let d = self.scratch.join(name);
        if d.exists() {
            fs::remove_dir_all(&d).map_err(|e| Fail::Harness(format!("scratch: {}", e)))?;
        }
        fs::create_dir_all(&d).map_err(|e| Fail::Harness(format!("scratch: {}", e)))?;
        Ok(d)
    }
}

pub fn hash_str(s: &str) -> u64 {
    crate::v::V::from(s).hash()
}

// ---------------------------------------------------------------- shared memory with the supervisor

#[repr(C)]
struct Shared {
    next: AtomicU64,
    stop: AtomicU64,
    in_lib: AtomicU64,
    current: AtomicU64,
    start_cpu_ms: AtomicU64,
}

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(what: i32, lim: *const [u64; 2]) -> i32;
    fn sysconf(n: i32) -> i64;
}

static mut MY: *const Shared = 0 as *const Shared;

fn map(path: &Path) -> *const Shared {
    let f = fs::OpenOptions::new().read(true).write(true).create(true).open(path).expect("shared file");
    f.set_len(4096).expect("shared file size");
    let p = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1, "mmap failed");
    p as *const Shared
}

fn shared<T, F: FnOnce(&Shared) -> T>(f: F) -> Option<T> {
    unsafe {
        if MY.is_null() {
            None
        } else {
            Some(f(&*MY))
        }
    }
}

/// cpu time of a process in ms
fn cpu_ms(pid: u32) -> Option<u64> {
    let s = fs::read_to_string(format!("/proc/{}/stat", pid)).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let w: Vec<&str> = rest.split(' ').collect();
    let t: u64 = w.get(11)?.parse::<u64>().ok()? + w.get(12)?.parse::<u64>().ok()?;
    let hz = unsafe { sysconf(2) } as u64;
    Some(t * 1000 / hz.max(1))
}

fn limits() {
    let gb = 1u64 << 30;
    unsafe {
        setrlimit(9, &[4 * gb, 4 * gb]); // address space
        setrlimit(4, &[0, 0]); // core files
    }
}

// ---------------------------------------------------------------- worker

pub fn quiet_panics() {
    panic::set_hook(Box::new(|i| {
        let s = format!("{}", i);
        PANIC.with(|p| *p.borrow_mut() = s)
    }));
}

fn new_ctx(id: &str, seed: u64, index: u64, tier: Tier, scratch: PathBuf) -> Ctx {
    Ctx {
        rng: Rng::new(seed, id, index),
        seed,
        index,
        tier,
        evals: 0,
        distinct: HashSet::new(),
        samples: vec![],
        attach: vec![],
        scratch,
        isolated: false,
    }
}

/// run one case, turning panics into failures
fn one_case(p: &Prop, c: &mut Ctx) -> Res {
    IN_LIB.with(|l| *l.borrow_mut() = None);
    shared(|s| s.in_lib.store(0, Ordering::SeqCst));
    match panic::catch_unwind(AssertUnwindSafe(|| (p.run)(c))) {
        Ok(r) => r,
        Err(_) => {
            let m = last_panic();
            match IN_LIB.with(|l| l.borrow().clone()) {
                Some(n) => bad(format!("panic in library call '{}': {}", n, m)),
                None => broken(format!("panic outside of the library: {}", m)),
            }
        }
    }
}

fn replay_text(id: &str, seed: u64, index: u64, tier: Tier, msg: &str, attach: &[(String, String)]) -> String {
    let mut s = format!(
        "property: {}\nseed: {}\ncase: {}\ntier: {}\nrerun: bash /verif/run.sh replay <this file>\n\n{}\n",
        id,
        seed,
        index,
        if tier == Tier::Quick { "quick" } else { "thorough" },
        msg
    );
    for a in attach {
        s.push_str(&format!("\n===== {} =====\n{}\n", a.0, a.1))
    }
    s
}

/// worker process: args dir k, only = run a single case
pub fn worker(p: &'static Prop, seed: u64, tier: Tier, dir: &Path, k: usize, only: Option<u64>) -> i32 {
    limits();
    quiet_panics();
    let total = map(&dir.join("queue"));
    let total: &'static Shared = unsafe { &*total };
    unsafe { MY = map(&dir.join(format!("status{}", k))) };
    let n = if tier == Tier::Quick { p.cases.0 } else { p.cases.1 };
    let dir = dir.to_path_buf();
    let t = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
        let scratch = dir.join(format!("w{}", k));
        fs::create_dir_all(&scratch).expect("scratch");
        let me = std::process::id();
        let mut ev: BTreeMap<String, u64> = BTreeMap::new();
        let mut distinct: HashSet<u64> = HashSet::new();
        let mut samples: Vec<String> = vec![];
        let (mut evals, mut cases) = (0u64, 0u64);
        let mut code = 0;
        loop {
            if total.stop.load(Ordering::SeqCst) != 0 {
                break;
            }
            let i = match only {
                Some(i) => if cases > 0 { break } else { i },
                None => total.next.fetch_add(1, Ordering::SeqCst),
            };
            if only.is_none() && i >= n {
                break;
            }
            shared(|s| {
                s.start_cpu_ms.store(cpu_ms(me).unwrap_or(0), Ordering::SeqCst);
                s.current.store(i + 1, Ordering::SeqCst);
            });
            let mut c = new_ctx(p.id, seed, i, tier, scratch.clone());
            c.isolated = only.is_some();
            let r = one_case(p, &mut c);
            cases += 1;
            evals += c.evals;
            distinct.extend(c.distinct.iter());
            if samples.len() < 6 {
                samples.append(&mut c.samples)
            }
            for (k, v) in take_events() {
                *ev.entry(k).or_insert(0) += v
            }
            match r {
                Ok(()) => (),
                Err(Fail::Skip(_)) => *ev.entry("case without a start".to_string()).or_insert(0) += 1,
                Err(Fail::Violation(m)) => {
                    total.stop.store(1, Ordering::SeqCst);
                    fs::write(dir.join(format!("violation{}", k)), replay_text(p.id, seed, i, tier, &m, &c.attach)).expect("write");
                    fs::write(dir.join(format!("violation{}.head", k)), format!("{} {}", i, m)).expect("write");
                    code = 1;
                    break;
                }
                Err(Fail::Harness(m)) => {
                    total.stop.store(1, Ordering::SeqCst);
                    fs::write(dir.join(format!("error{}", k)), replay_text(p.id, seed, i, tier, &m, &c.attach)).expect("write");
                    code = 2;
                    break;
                }
            }
        }
        // what was observed
        let mut o = String::new();
        o.push_str(&format!("cases\t{}\nevals\t{}\n", cases, evals));
        for (k, v) in &ev {
            o.push_str(&format!("event\t{}\t{}\n", k, v))
        }
        for s in &samples {
            o.push_str(&format!("sample\t{}\n", s.replace('\n', "\\n").replace('\r', "\\r")))
        }
        for h in &distinct {
            o.push_str(&format!("h\t{:x}\n", h))
        }
        let tmp = dir.join(format!("result{}.tmp", k));
        fs::write(&tmp, o).expect("write");
        fs::rename(&tmp, dir.join(format!("result{}", k))).expect("rename");
        code
    });
    match t.expect("thread").join() {
        Ok(c) => c,
        Err(_) => 2,
    }
}

// ---------------------------------------------------------------- supervisor

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Default)]
struct Totals {
    cases: u64,
    evals: u64,
    events: BTreeMap<String, u64>,
    samples: Vec<String>,
    distinct: HashSet<u64>,
}

impl Totals {
    fn load(&mut self, path: &Path) -> Result<(), String> {
        let s = fs::read_to_string(path).map_err(|e| format!("{}: {}", path.display(), e))?;
        for l in s.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "cases" => self.cases += f[1].parse::<u64>().unwrap_or(0),
                "evals" => self.evals += f[1].parse::<u64>().unwrap_or(0),
                "event" => *self.events.entry(f[1].to_string()).or_insert(0) += f[2].parse::<u64>().unwrap_or(0),
                "sample" => if self.samples.len() < 8 {
                    self.samples.push(l[7..].to_string())
                },
                "h" => {
                    self.distinct.insert(u64::from_str_radix(f[1], 16).unwrap_or(0));
                }
                _ => (),
            }
        }
        Ok(())
    }
}

struct Worker {
    child: Child,
    k: usize,
    shared: *const Shared,
}

fn spawn(p: &Prop, seed: u64, tier: Tier, dir: &Path, k: usize, only: Option<u64>) -> Worker {
    let mut c = Command::new(std::env::current_exe().expect("own path"));
    c.arg("worker").arg(p.id).arg(format!("{}", seed)).arg(if tier == Tier::Quick { "quick" } else { "thorough" });
    c.arg(dir).arg(format!("{}", k));
    if let Some(i) = only {
        c.arg(format!("{}", i));
    }
    c.stdin(Stdio::null()).stdout(Stdio::null());
    let err = fs::File::create(dir.join(format!("stderr{}", k))).expect("stderr file");
    c.stderr(err);
    let shared = map(&dir.join(format!("status{}", k)));
    let child = c.spawn().expect("spawn worker");
    Worker { child, k, shared }
}

#[derive(Debug, PartialEq, Clone)]
enum End {
    Done,
    Violation,
    Error,
    Signal(i32, u64, bool),
    Slow(u64, bool),
}

/// wait for one worker, killing it when a single case uses too much cpu time
fn watch(w: &mut Worker, budget_ms: u64) -> Option<End> {
    let s = unsafe { &*w.shared };
    if let Ok(Some(st)) = w.child.try_wait() {
        return Some(match st.code() {
            Some(0) => End::Done,
            Some(1) => End::Violation,
            Some(_) => End::Error,
            None => End::Signal(
                st.signal().unwrap_or(0),
                s.current.load(Ordering::SeqCst),
                s.in_lib.load(Ordering::SeqCst) > 0,
            ),
        });
    }
    let cur = s.current.load(Ordering::SeqCst);
    let start = s.start_cpu_ms.load(Ordering::SeqCst);
    if cur > 0 {
        if let Some(t) = cpu_ms(w.child.id()) {
            if t > start + budget_ms && s.current.load(Ordering::SeqCst) == cur {
                let in_lib = s.in_lib.load(Ordering::SeqCst) > 0;
                let _ = w.child.kill();
                let _ = w.child.wait();
                return Some(End::Slow(cur, in_lib));
            }
        }
    }
    None
}

fn isolated(p: &Prop, seed: u64, tier: Tier, dir: &Path, k: usize, case: u64, budget_ms: u64) -> End {
    let q = unsafe { &*map(&dir.join("queue")) };
    q.stop.store(0, Ordering::SeqCst);
    let mut w = spawn(p, seed, tier, dir, k, Some(case));
    loop {
        if let Some(e) = watch(&mut w, budget_ms) {
            return e;
        }
        std::thread::sleep(Duration::from_millis(20))
    }
}

pub fn supervise(p: &'static Prop, seed: u64, tier: Tier, root: &Path) -> i32 {
    let t0 = Instant::now();
    let tname = if tier == Tier::Quick { "quick" } else { "thorough" };
    let dir = root.join("out").join("run").join(format!("{}-{}", p.id, std::process::id()));
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).expect("run directory");
    let code = supervise_in(p, seed, tier, tname, root, &dir, t0);
    let _ = fs::remove_dir_all(&dir);
    code
}

fn supervise_in(p: &'static Prop, seed: u64, tier: Tier, tname: &str, root: &Path, dir: &Path, t0: Instant) -> i32 {
    let n = if tier == Tier::Quick { p.cases.0 } else { p.cases.1 };
    let queue = unsafe { &*map(&dir.join("queue")) };
    let jobs = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8).min(n.max(1) as usize);
    let soft = Duration::from_secs(if tier == Tier::Quick { 420 } else { 780 });
    let mut ws: Vec<Worker> = (0..jobs).map(|k| spawn(p, seed, tier, dir, k, None)).collect();
    let mut odd: Vec<End> = vec![];
    let mut violation = false;
    let mut error: Option<String> = None;
    let mut k_next = jobs;
    let mut done: Vec<usize> = vec![];
    let mut truncated = false;
    while !ws.is_empty() {
        let mut i = 0;
        while i < ws.len() {
            match watch(&mut ws[i], 30_000) {
                None => i += 1,
                Some(e) => {
                    let w = ws.swap_remove(i);
                    match e {
                        End::Done => done.push(w.k),
                        End::Violation => {
                            violation = true;
                            done.push(w.k)
                        }
                        End::Error => {
                            let m = fs::read_to_string(dir.join(format!("error{}", w.k)))
                                .or_else(|_| fs::read_to_string(dir.join(format!("stderr{}", w.k))))
                                .unwrap_or_default();
                            error = Some(m);
                        }
                        e => {
                            odd.push(e);
                            queue.stop.store(1, Ordering::SeqCst)
                        }
                    }
                }
            }
        }
        if t0.elapsed() > soft && !truncated {
            truncated = true;
            queue.stop.store(1, Ordering::SeqCst)
        }
        std::thread::sleep(Duration::from_millis(20))
    }
    let mut t = Totals::default();
    for k in &done {
        if let Err(e) = t.load(&dir.join(format!("result{}", k))) {
            error = Some(e)
        }
    }
    let replay_dir = root.join("out").join("replay");
    fs::create_dir_all(&replay_dir).expect("replay directory");
    let mut head = String::new();
    let mut replay = PathBuf::new();
    if violation {
        for k in &done {
            if let Ok(h) = fs::read_to_string(dir.join(format!("violation{}.head", k))) {
                let case = h.split(' ').next().unwrap_or("0").to_string();
                replay = replay_dir.join(format!("{}-{}-{}.txt", p.id, seed, case));
                fs::copy(dir.join(format!("violation{}", k)), &replay).expect("replay file");
                head = h;
                break;
            }
        }
    } else if let Some(o) = odd.first().cloned() {
        // a worker died or ran away: decide by re-running the case alone
        let (case, in_lib) = match o {
            End::Signal(_, c, l) => (c, l),
            End::Slow(c, l) => (c, l),
            _ => (0, false),
        };
        if case == 0 {
            error = Some(format!("a worker ended before its first case: {:?}", o))
        } else {
            let case = case - 1;
            let mut ends = vec![];
            for _ in 0..2 {
                ends.push(isolated(p, seed, tier, dir, k_next, case, if let End::Slow(..) = o { 120_000 } else { 30_000 }));
                k_next += 1
            }
            let same = ends.iter().all(|e| match (e, &o) {
                (End::Signal(a, _, l), End::Signal(b, ..)) => a == b && *l && *a != 9 && *a != 15,
                (End::Slow(_, l), End::Slow(..)) => *l,
                _ => false,
            });
            let what = match o {
                End::Signal(s, ..) => format!("the process was killed by signal {} inside a library call (stack overflow, abort or exhausted memory)", s),
                _ => "a library call did not finish within 120 s of cpu time".to_string(),
            };
            if same && in_lib {
                violation = true;
                head = format!("{} {}", case, what);
                replay = replay_dir.join(format!("{}-{}-{}.txt", p.id, seed, case));
                let input: Vec<(String, String)> = fs::read_to_string(dir.join(format!("w{}", k_next - 1)).join("input")).map(|s| vec![("input".to_string(), s)]).unwrap_or_default();
                fs::write(&replay, replay_text(p.id, seed, case, tier, &what, &input)).expect("replay file");
            } else {
                error = Some(format!("case {} ended oddly ({:?}), re-runs gave {:?}", case, o, ends))
            }
        }
    }
    let missing: Vec<&str> = p.required.iter().cloned().filter(|r| !t.events.contains_key(*r)).collect();
    let wall = t0.elapsed().as_secs_f64();

    // evidence
    let ev_dir = root.join("evidence");
    fs::create_dir_all(&ev_dir).expect("evidence directory");
    let mut samples = t.samples.clone();
    samples.truncate(8);
    let ev = format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"samples\": [{}],\n    \"cases_run\": {},\n    \"cases_planned\": {},\n    \"stopped_early\": {},\n    \"events\": {{{}}}\n  }},\n  \"wall_s\": {:.3},\n  \"assumptions\": [{}],\n  \"violations\": {}\n}}\n",
        esc(p.id),
        esc(tname),
        seed,
        t.evals,
        t.distinct.len(),
        esc(p.rule),
        samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "),
        t.cases,
        n,
        truncated,
        t.events.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", "),
        wall,
        p.assumptions.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "),
        if violation { 1 } else { 0 }
    );
    let mut f = fs::File::create(ev_dir.join(format!("{}.json", p.id))).expect("evidence file");
    f.write_all(ev.as_bytes()).expect("evidence file");

    println!(
        "{} {} seed {}: {} of {} cases, {} oracle decisions, {} distinct observations, {} kinds of events, {:.1} s",
        p.id, tname, seed, t.cases, n, t.evals, t.distinct.len(), t.events.len(), wall
    );
    if violation {
        println!("{}", crate::v::clip(&head, 2000));
        println!("VIOLATION property={} replay={}", p.id, replay.display());
        return 1;
    }
    if let Some(e) = error {
        println!("ERROR of the check: {}", crate::v::clip(&e, 3000));
        return 2;
    }
    if t.cases == 0 || t.evals == 0 || t.distinct.is_empty() {
        println!("INCONCLUSIVE: nothing was observed");
        return 2;
    }
    if !missing.is_empty() && !truncated {
        println!("INCONCLUSIVE: events never observed: {:?}", missing);
        return 2;
    }
    println!("held");
    0
}

/// run a single case in this process and print what happened
pub fn replay(p: &'static Prop, seed: u64, index: u64, tier: Tier, root: &Path) -> i32 {
    let dir = root.join("out").join("run").join(format!("replay-{}", std::process::id()));
    fs::create_dir_all(&dir).expect("directory");
    let d = dir.clone();
    let t = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
        quiet_panics();
        let mut c = new_ctx(p.id, seed, index, tier, d);
        let r = one_case(p, &mut c);
        let (code, m) = match r {
            Ok(()) => (0, "held".to_string()),
            Err(Fail::Violation(m)) => (1, m),
            Err(Fail::Skip(m)) => (0, format!("not judged: {}", m)),
            Err(Fail::Harness(m)) => (2, format!("ERROR of the check: {}", m)),
        };
        println!("{}", replay_text(p.id, seed, index, tier, &m, &c.attach));
        code
    });
    let code = t.expect("thread").join().unwrap_or(2);
    let _ = fs::remove_dir_all(&dir);
    code
}

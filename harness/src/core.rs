//! Driver: fixed-work parallel search, shrinking, replay, evidence, supervision.
use crate::src::{hash_str, mix, Src};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const EXIT_OK: i32 = 0;
pub const EXIT_VIOLATION: i32 = 1;
pub const EXIT_ERROR: i32 = 3;
const STACK: usize = 64 << 20;
/// A case takes microseconds to (with processes) a second; this long is forever.
const STUCK: u64 = 40;

// ---------------------------------------------------------------- allocator
/// Counts what one case allocates; a deterministic budget turns "allocates
/// without end" into a reproducible failure.
pub struct CountingAlloc;
thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static TOTAL: Cell<usize> = const { Cell::new(0) };
    static ARMED: Cell<bool> = const { Cell::new(false) };
}
const LIVE_LIMIT: isize = 2 << 30;
const TOTAL_LIMIT: usize = 24 << 30;

fn over_budget() -> ! {
    ARMED.with(|a| a.set(false));
    let msg = b"ALLOC-BUDGET exceeded by one case\n";
    unsafe {
        libc::write(2, msg.as_ptr() as *const _, msg.len());
        libc::abort();
    }
}
#[inline]
fn account(n: usize) {
    let _ = ARMED.try_with(|a| {
        if a.get() {
            let l = LIVE.with(|l| {
                l.set(l.get() + n as isize);
                l.get()
            });
            let t = TOTAL.with(|t| {
                t.set(t.get() + n);
                t.get()
            });
            if l > LIVE_LIMIT || t > TOTAL_LIMIT {
                over_budget();
            }
        }
    });
}
#[inline]
fn unaccount(n: usize) {
    let _ = ARMED.try_with(|a| {
        if a.get() {
            LIVE.with(|l| l.set(l.get() - n as isize));
        }
    });
}
unsafe impl GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        account(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unaccount(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        unaccount(l.size());
        account(n);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOC: CountingAlloc = CountingAlloc;

// ---------------------------------------------------------------- observation
#[derive(Default)]
pub struct Obs {
    pub labels: Vec<String>,
    pub nontrivial: bool,
    pub show: String,
}
impl Obs {
    /// Counts the case in a class of the distribution report.
    pub fn label(&mut self, s: impl Into<String>) {
        self.labels.push(s.into());
    }
    pub fn label_if(&mut self, c: bool, s: &str) {
        if c {
            self.labels.push(s.to_string());
        }
    }
    /// How the case is written out (also its identity).
    pub fn show(&mut self, s: impl Into<String>) {
        self.show = s.into();
    }
}

pub type Res = Result<(), String>;
pub type CaseFn = Box<dyn Fn(&mut Src, &mut Obs) -> Res + Send + Sync>;

pub struct Sub {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: CaseFn,
}
pub fn sub(
    name: &'static str,
    quick: u64,
    thorough: u64,
    run: impl Fn(&mut Src, &mut Obs) -> Res + Send + Sync + 'static,
) -> Sub {
    Sub { name, quick, thorough, run: Box::new(run) }
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

// ---------------------------------------------------------------- panics
thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}
fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
        if !QUIET.with(|q| q.get()) {
            old(info);
        }
    }));
}
/// Runs library code; a panic becomes Err(description).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    r.map_err(|_| {
        let (m, l) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
        format!("PANIC at {l}: {m}")
    })
}
fn is_harness_panic(msg: &str) -> bool {
    msg.strip_prefix("PANIC at ").is_some_and(|m| {
        m.starts_with("src/") || m.contains("/verif/harness") || m.starts_with("harness/")
    })
}

// ---------------------------------------------------------------- one case
enum Outcome {
    Pass,
    Fail(String),
    HarnessBug(String),
}
fn run_one(sub: &Sub, src: &mut Src) -> (Outcome, Obs) {
    let mut obs = Obs::default();
    LIVE.with(|l| l.set(0));
    TOTAL.with(|l| l.set(0));
    ARMED.with(|a| a.set(true));
    let r = guarded(|| (sub.run)(src, &mut obs));
    ARMED.with(|a| a.set(false));
    let out = match r {
        Ok(Ok(())) => Outcome::Pass,
        Ok(Err(m)) => Outcome::Fail(m),
        Err(m) if is_harness_panic(&m) => Outcome::HarnessBug(m),
        Err(m) => Outcome::Fail(m),
    };
    (out, obs)
}

/// `[sig:NAME] ...` marks failures that a known-findings entry may name.
fn sig_of(msg: &str) -> Option<&str> {
    msg.strip_prefix("[sig:").and_then(|m| m.split_once(']')).map(|(s, _)| s)
}

fn shrink(
    mut best: Vec<u32>,
    budget: usize,
    mut fails: impl FnMut(&[u32]) -> Option<Vec<u32>>,
) -> Vec<u32> {
    let mut used = 0;
    let until = std::time::Instant::now() + std::time::Duration::from_secs(90);
    let mut try_ = |cand: &[u32], used: &mut usize| -> Option<Vec<u32>> {
        if *used >= budget || std::time::Instant::now() > until {
            return None;
        }
        *used += 1;
        fails(cand)
    };
    // a candidate wins if the choices it really consumed are simpler
    let simpler = |a: &[u32], b: &[u32]| {
        a.len() < b.len() || (a.len() == b.len() && a < b)
    };
    loop {
        let before = best.clone();
        // delete blocks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = best.len().saturating_sub(size);
            loop {
                if i + size <= best.len() {
                    let mut c = best.clone();
                    c.drain(i..i + size);
                    if let Some(r) = try_(&c, &mut used) {
                        if simpler(&r, &best) {
                            best = r;
                        }
                    } else if i > 0 && best[i - 1] > 0 {
                        // deleting an element of a counted sequence
                        let mut c = best.clone();
                        c.drain(i..i + size);
                        c[i - 1] -= 1;
                        if let Some(r) = try_(&c, &mut used) {
                            if simpler(&r, &best) {
                                best = r;
                            }
                        }
                    }
                }
                if i == 0 {
                    break;
                }
                i = i.saturating_sub(if size > 8 { size / 2 } else { 1 });
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // lower values
        for i in 0..best.len() {
            if i >= best.len() || best[i] == 0 {
                continue;
            }
            let mut c = best.clone();
            c[i] = 0;
            if let Some(r) = try_(&c, &mut used) {
                if simpler(&r, &best) {
                    best = r;
                    continue;
                }
            }
            let (mut lo, mut hi) = (0u32, best[i]);
            while hi - lo > 1 && i < best.len() {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                match try_(&c, &mut used) {
                    Some(r) if simpler(&r, &best) => {
                        best = r;
                        hi = mid;
                    }
                    _ => lo = mid,
                }
            }
        }
        if best == before || used >= budget {
            return best;
        }
    }
}

// ---------------------------------------------------------------- settings
fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}
pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}
pub fn tier() -> String {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough".into(),
        _ => "quick".into(),
    }
}
fn workers() -> usize {
    std::env::var("VERIF_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8)
}

/// known-findings.txt: `known: property=<id> sig=<name> <what fails>`
fn known_findings(id: &str) -> Vec<(String, String)> {
    let p = verif_dir().join("known-findings.txt");
    let Ok(t) = std::fs::read_to_string(p) else { return vec![] };
    t.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter_map(|l| {
            let mut it = l.splitn(3, ' ');
            let p = it.next()?.strip_prefix("property=")?;
            let s = it.next()?.strip_prefix("sig=")?;
            let rest = it.next().unwrap_or("");
            (p == id).then(|| (s.to_string(), rest.to_string()))
        })
        .collect()
}

// ---------------------------------------------------------------- status slots
struct Slots {
    ptr: *mut u64,
}
unsafe impl Send for Slots {}
unsafe impl Sync for Slots {}
impl Slots {
    fn open(path: &Path, n: usize) -> Self {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(false)
            .open(path)
            .expect("status file");
        f.set_len((n * 16) as u64).unwrap();
        let ptr = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                n * 16,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(ptr != libc::MAP_FAILED);
        Slots { ptr: ptr as *mut u64 }
    }
    fn set(&self, w: usize, sub: u64, case: u64) {
        unsafe {
            std::ptr::write_volatile(self.ptr.add(w * 2), sub + 1);
            std::ptr::write_volatile(self.ptr.add(w * 2 + 1), case);
        }
    }
    fn clear(&self, w: usize) {
        unsafe { std::ptr::write_volatile(self.ptr.add(w * 2), 0) }
    }
    fn get(&self, w: usize) -> Option<(u64, u64)> {
        unsafe {
            let s = std::ptr::read_volatile(self.ptr.add(w * 2));
            let c = std::ptr::read_volatile(self.ptr.add(w * 2 + 1));
            (s > 0).then(|| (s - 1, c))
        }
    }
}

fn case_seed(id: &str, sub: &str, idx: u64) -> u64 {
    mix(mix(seed(), hash_str(&format!("{id}/{sub}"))), idx)
}

fn json_str(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}
pub fn cut(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}…[{} bytes]", &s[..e], s.len())
}

fn write_replay(p: &Property, s: &Sub, choices: &[u32], msg: &str, show: &str) -> PathBuf {
    let dir = verif_dir().join("replays");
    std::fs::create_dir_all(&dir).ok();
    let f = dir.join(format!("{}-{}.json", p.id, s.name));
    let body = serde_json::json!({
        "property": p.id, "sub": s.name, "seed": seed(), "choices": choices,
        "case": show, "failure": msg,
        "how": format!("./run.sh {} --replay {}", p.id, f.display()),
    });
    std::fs::write(&f, serde_json::to_string_pretty(&body).unwrap()).expect("replay file");
    f
}
fn report_violation(p: &Property, s: &Sub, file: &Path, msg: &str, show: &str) {
    println!("--- property {} / {} does not hold", p.id, s.name);
    println!("case: {}", cut(show, 4000));
    println!("failure: {}", cut(msg, 6000));
    println!("VIOLATION property={} replay={}", p.id, file.display());
    std::io::stdout().flush().ok();
}

// ---------------------------------------------------------------- main
pub fn main_for(props: Vec<Property>) -> ! {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let Some(p) = props.into_iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(EXIT_ERROR);
    };
    let flag = args.get(2).map(|s| s.as_str()).unwrap_or("");
    let code = match flag {
        "--child" => in_thread(move || child(&p)),
        "--one" => {
            // --one <sub> <choices-file>: exit 0 pass, 1 fail (used for crash shrinking)
            let sub_i: usize = args[3].parse().unwrap();
            let choices: Vec<u32> =
                serde_json::from_str(&std::fs::read_to_string(&args[4]).unwrap()).unwrap();
            let out = args.get(5).cloned();
            in_thread(move || {
                if let Some(o) = &out {
                    // first only generate the text: written before the check may die
                    std::fs::write(o, "").ok();
                }
                let mut src = Src::replay(choices);
                let (r, _) = run_one(&p.subs[sub_i], &mut src);
                match r {
                    Outcome::Pass => 0,
                    _ => 1,
                }
            })
        }
        "--seedone" => {
            // --seedone <sub> <case>: replays one random case of the stream
            let sub_i: usize = args[3].parse().unwrap();
            let case: u64 = args[4].parse().unwrap();
            in_thread(move || {
                let s = &p.subs[sub_i];
                let mut src = Src::random(case_seed(p.id, s.name, case));
                let (r, obs) = run_one(s, &mut src);
                if std::env::var("VK_SHOW").is_ok() {
                    println!("{}", obs.show);
                }
                match r {
                    Outcome::Pass => 0,
                    Outcome::Fail(m) | Outcome::HarnessBug(m) => {
                        println!("{m}");
                        1
                    }
                }
            })
        }
        "--replay" => {
            let v: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(&args[3]).unwrap()).unwrap();
            let choices: Vec<u32> = serde_json::from_value(v["choices"].clone()).unwrap();
            let name = v["sub"].as_str().unwrap().to_string();
            in_thread(move || {
                let s = p.subs.iter().find(|s| s.name == name).expect("sub");
                let mut src = Src::replay(choices);
                let (r, obs) = run_one(s, &mut src);
                println!("case: {}", obs.show);
                match r {
                    Outcome::Pass => {
                        println!("replay passes");
                        0
                    }
                    Outcome::Fail(m) => {
                        println!("failure: {m}");
                        println!("VIOLATION property={} replay={}", p.id, args[3]);
                        1
                    }
                    Outcome::HarnessBug(m) => {
                        println!("harness error: {m}");
                        EXIT_ERROR
                    }
                }
            })
        }
        "--samples" => {
            let name = args.get(3).cloned().unwrap_or_default();
            let n: u64 = args.get(4).and_then(|s| s.parse().ok()).unwrap_or(20);
            in_thread(move || {
                for s in p.subs.iter().filter(|s| name.is_empty() || s.name == name) {
                    for i in 0..n {
                        let mut src = Src::random(case_seed(p.id, s.name, i));
                        let (r, obs) = run_one(s, &mut src);
                        let st = match r {
                            Outcome::Pass => "ok".to_string(),
                            Outcome::Fail(m) => format!("FAIL {m}"),
                            Outcome::HarnessBug(m) => format!("HARNESS {m}"),
                        };
                        println!("[{} {}{}] {}\n   {}", s.name, i, if obs.nontrivial { " *" } else { "" }, st, obs.show);
                    }
                }
                0
            })
        }
        _ => supervise(&p),
    };
    std::io::stdout().flush().ok();
    std::process::exit(code);
}

fn in_thread(f: impl FnOnce() -> i32 + Send + 'static) -> i32 {
    match std::thread::Builder::new().stack_size(STACK).spawn(f).unwrap().join() {
        Ok(c) => c,
        Err(_) => EXIT_ERROR,
    }
}

fn status_path() -> PathBuf {
    let d = verif_dir().join("work");
    std::fs::create_dir_all(&d).ok();
    d.join(format!("status-{}", std::process::id()))
}

fn supervise(p: &Property) -> i32 {
    let n = workers();
    let path = status_path();
    let slots = Slots::open(&path, n);
    let exe = std::env::current_exe().unwrap();
    let limit = Duration::from_secs(if tier() == "thorough" { 6 * 3600 } else { 840 });
    let start = Instant::now();
    let mut c = Command::new(&exe)
        .args([p.id, "--child"])
        .env("VK_STATUS", &path)
        .spawn()
        .expect("child");
    // what each worker is at, and since when
    let mut at: Vec<(Option<(u64, u64)>, Instant)> = vec![(None, Instant::now()); n];
    let st = loop {
        for (w, a) in at.iter_mut().enumerate() {
            let now = slots.get(w);
            if now != a.0 {
                *a = (now, Instant::now());
            }
        }
        let stuck = at.iter().position(|a| {
            a.0.is_some_and(|(s, _)| a.1.elapsed() > Duration::from_secs(if s as usize >= p.subs.len() { 200 } else { STUCK }))
        });
        let hung = stuck.is_some_and(|w| {
            at[w].1 = Instant::now();
            hangs(p, at[w].0, &exe)
        });
        match c.try_wait().unwrap() {
            Some(s) => break s,
            None if hung => {
                c.kill().ok();
                c.wait().ok();
                // only the worker that hangs is of interest
                for w in 0..n {
                    if Some(w) != stuck {
                        slots.clear(w);
                    }
                }
                let code = crash(p, &slots, n, &exe, true);
                std::fs::remove_file(&path).ok();
                return code;
            }
            None if start.elapsed() > limit => {
                c.kill().ok();
                c.wait().ok();
                for w in 0..n {
                    if let Some((s, i)) = slots.get(w) {
                        println!("inconclusive: worker {w} was in {} case {i}", p.subs.get(s as usize).map_or("shrinking", |s| s.name));
                    }
                }
                println!("ERROR: time limit reached (inconclusive, not a violation)");
                std::fs::remove_file(&path).ok();
                return EXIT_ERROR;
            }
            None => std::thread::sleep(Duration::from_millis(20)),
        }
    };
    let code = match st.code() {
        Some(c) => c,
        None => crash(p, &slots, n, &exe, false),
    };
    std::fs::remove_file(&path).ok();
    code
}

/// A case that has been running for very long: does it hang on its own, too?
fn hangs(p: &Property, at: Option<(u64, u64)>, exe: &Path) -> bool {
    let Some((s, i)) = at else { return false };
    if s as usize >= p.subs.len() {
        return true;
    }
    let mut ch = Command::new(exe)
        .args([p.id, "--seedone", &s.to_string(), &i.to_string()])
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .expect("child");
    let t = Instant::now();
    while t.elapsed() < Duration::from_secs(STUCK) {
        if ch.try_wait().unwrap().is_some() {
            return false;
        }
        std::thread::sleep(Duration::from_millis(50));
    }
    ch.kill().ok();
    ch.wait().ok();
    true
}

/// The child died from a signal: find the case, confirm, shrink out of process.
fn crash(p: &Property, slots: &Slots, n: usize, exe: &Path, hang: bool) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let dies = |args: &[&str], limit: u64| -> Option<i32> {
        let mut ch = Command::new(exe)
            .arg(p.id)
            .args(args)
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .ok()?;
        let t = Instant::now();
        loop {
            match ch.try_wait().ok()? {
                Some(s) => return s.signal().filter(|s| [libc::SIGSEGV, libc::SIGABRT, libc::SIGBUS, libc::SIGILL, libc::SIGFPE].contains(s)),
                None if t.elapsed() > Duration::from_secs(limit) => {
                    ch.kill().ok();
                    ch.wait().ok();
                    return hang.then_some(0);
                }
                None => std::thread::sleep(Duration::from_millis(3)),
            }
        }
    };
    for w in 0..n {
        let Some((si, idx)) = slots.get(w) else { continue };
        if si as usize >= p.subs.len() {
            // it died while shrinking a failure that was already written down
            let f = verif_dir().join("work").join(format!("unshrunk-{}.json", p.id));
            let Ok(v) = std::fs::read_to_string(&f) else { continue };
            let v: serde_json::Value = serde_json::from_str(&v).unwrap();
            let name = v["sub"].as_str().unwrap_or_default().to_string();
            let Some(s) = p.subs.iter().find(|s| s.name == name) else { continue };
            let choices: Vec<u32> = serde_json::from_value(v["choices"].clone()).unwrap_or_default();
            let (msg, show) = (v["failure"].as_str().unwrap_or_default(), v["case"].as_str().unwrap_or_default());
            let f = write_replay(p, s, &choices, msg, show);
            write_evidence(p, &Stats::default(), Duration::ZERO, 1, &[]);
            report_violation(p, s, &f, msg, show);
            return EXIT_VIOLATION;
        }
        let s = &p.subs[si as usize];
        let (a, b) = (si.to_string(), idx.to_string());
        let Some(sig) = (if hang { Some(0) } else { dies(&["--seedone", &a, &b], 60) }) else { continue };
        // recover the choices: generate in-process is unsafe (it may die), so
        // shrink on a prefix of the random stream, recorded by a dry generator
        // run in a forked child is not available; replay the stream itself.
        let seed = case_seed(p.id, s.name, idx);
        let raw = dry_choices(p, si as usize, seed);
        let file = verif_dir().join("work").join(format!("crash-{}-{}.json", p.id, std::process::id()));
        let fpath = file.to_string_lossy().to_string();
        let mut check = |c: &[u32]| -> Option<Vec<u32>> {
            std::fs::write(&file, serde_json::to_string(c).unwrap()).ok()?;
            dies(&["--one", &a, &fpath], if hang { 3 } else { 60 }).map(|_| c.to_vec())
        };
        let (best, show) = match raw {
            Some(raw) if check(&raw).is_some() => {
                let best = shrink(raw, if hang { 60 } else { 250 }, &mut check);
                let show = dry_show(p, si as usize, &best).unwrap_or_default();
                (best, show)
            }
            _ => (vec![], format!("case {idx} of stream {}/{} seed {seed}", p.id, s.name)),
        };
        std::fs::remove_file(&file).ok();
        let msg = match sig {
            0 => format!("no end after {STUCK} s (twice; other cases take far less than a second)"),
            _ => format!("the process died from signal {sig} (confirmed by re-running the single case)"),
        };
        let f = write_replay(p, s, &best, &msg, &show);
        write_evidence(p, &Stats::default(), Duration::ZERO, 1, &[]);
        report_violation(p, s, &f, &msg, &show);
        return EXIT_VIOLATION;
    }
    println!("ERROR: the test process died and no single case reproduces it");
    EXIT_ERROR
}

// Environment switch: generators call `dry()` after generation; when set, the
// case stops there (used to learn choices and text of a crashing case).
thread_local! { static DRY: Cell<bool> = const { Cell::new(false) }; }
pub fn dry() -> bool {
    DRY.with(|d| d.get())
}
fn dry_choices(p: &Property, si: usize, seed: u64) -> Option<Vec<u32>> {
    DRY.with(|d| d.set(true));
    let mut src = Src::random(seed);
    let mut obs = Obs::default();
    let r = guarded(|| (p.subs[si].run)(&mut src, &mut obs));
    DRY.with(|d| d.set(false));
    r.ok()?.ok();
    Some(src.rec)
}
fn dry_show(p: &Property, si: usize, c: &[u32]) -> Option<String> {
    DRY.with(|d| d.set(true));
    let mut src = Src::replay(c.to_vec());
    let mut obs = Obs::default();
    let r = guarded(|| (p.subs[si].run)(&mut src, &mut obs));
    DRY.with(|d| d.set(false));
    r.ok()?.ok();
    Some(obs.show)
}

#[derive(Default)]
struct Stats {
    evals: u64,
    distinct: HashSet<u64>,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<(String, String)>,
    per_sub: BTreeMap<String, (u64, u64)>,
}

fn child(p: &Property) -> i32 {
    let n = workers();
    let slots = std::env::var("VK_STATUS").ok().map(|s| Slots::open(Path::new(&s), n));
    let slots = slots.as_ref();
    let thorough = tier() == "thorough";
    let start = Instant::now();
    let known = known_findings(p.id);
    let mut stats = Stats::default();
    let known_hits: Mutex<BTreeMap<String, (u64, String)>> = Mutex::new(BTreeMap::new());
    let scale: f64 = std::env::var("VK_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let only = std::env::var("VK_SUB").ok();
    for (si, s) in p.subs.iter().enumerate() {
        if only.as_deref().is_some_and(|o| o != s.name) {
            continue;
        }
        let t0 = Instant::now();
        let total = ((if thorough { s.thorough } else { s.quick }) as f64 * scale).ceil() as u64;
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let fail: Mutex<Option<(u64, Vec<u32>, String, String)>> = Mutex::new(None);
        let bug: Mutex<Option<String>> = Mutex::new(None);
        let parts: Vec<Stats> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..n)
                .map(|w| {
                    let (next, stop, fail, bug, known, known_hits) =
                        (&next, &stop, &fail, &bug, &known, &known_hits);
                    std::thread::Builder::new()
                        .stack_size(STACK)
                        .spawn_scoped(sc, move || {
                            let mut st = Stats::default();
                            loop {
                                if stop.load(Ordering::Relaxed) {
                                    if let Some(sl) = slots {
                                        sl.clear(w);
                                    }
                                    break;
                                }
                                let idx = next.fetch_add(1, Ordering::Relaxed);
                                if idx >= total {
                                    if let Some(sl) = slots {
                                        sl.clear(w);
                                    }
                                    break;
                                }
                                if let Some(sl) = slots {
                                    sl.set(w, si as u64, idx);
                                }
                                let mut src = Src::random(case_seed(p.id, s.name, idx));
                                let (r, obs) = run_one(s, &mut src);
                                st.evals += 1;
                                let h = hash_str(&obs.show);
                                st.distinct.insert(h);
                                if obs.nontrivial && st.nontrivial.insert(h) && st.nontrivial.len() % 97 == 1 && st.samples.len() < 3 {
                                    st.samples.push((s.name.to_string(), cut(&obs.show, 700)));
                                }
                                for l in obs.labels {
                                    *st.labels.entry(format!("{}:{}", s.name, l)).or_default() += 1;
                                }
                                match r {
                                    Outcome::Pass => {}
                                    Outcome::HarnessBug(m) => {
                                        *bug.lock().unwrap() =
                                            Some(format!("{m}\n in {} case {idx}: {}", s.name, cut(&obs.show, 2000)));
                                        stop.store(true, Ordering::Relaxed);
                                        break;
                                    }
                                    Outcome::Fail(m) => {
                                        if let Some(k) = sig_of(&m) {
                                            if known.iter().any(|(s, _)| s == k) {
                                                let mut kh = known_hits.lock().unwrap();
                                                let e = kh.entry(k.to_string()).or_insert((0, cut(&obs.show, 300)));
                                                e.0 += 1;
                                                continue;
                                            }
                                        }
                                        let mut f = fail.lock().unwrap();
                                        if f.as_ref().is_none_or(|x| x.0 > idx) {
                                            *f = Some((idx, src.rec.clone(), m, obs.show));
                                        }
                                        stop.store(true, Ordering::Relaxed);
                                        break;
                                    }
                                }
                            }
                            st
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("worker")).collect()
        });
        let (mut sub_e, mut sub_n) = (0, 0);
        for part in parts {
            sub_e += part.evals;
            stats.evals += part.evals;
            stats.distinct.extend(part.distinct);
            sub_n += part.nontrivial.len() as u64;
            stats.nontrivial.extend(part.nontrivial);
            for (k, v) in part.labels {
                *stats.labels.entry(k).or_default() += v;
            }
            let have = stats.samples.iter().filter(|x| x.0 == s.name).count();
            stats.samples.extend(part.samples.into_iter().take(3usize.saturating_sub(have)));
        }
        stats.per_sub.insert(s.name.to_string(), (sub_e, sub_n));
        eprintln!("[{} {}] {} cases, {} non-trivial, {:.1}s", p.id, s.name, sub_e, sub_n, t0.elapsed().as_secs_f64());
        if let Some(m) = bug.into_inner().unwrap() {
            println!("ERROR in the harness: {m}");
            return EXIT_ERROR;
        }
        if let Some((_, rec, msg, show)) = fail.into_inner().unwrap() {
            // shrink, keeping any failure that is not a listed finding
            let mut last = (msg, show);
            let unshrunk = verif_dir().join("work").join(format!("unshrunk-{}.json", p.id));
            if let Some(sl) = slots {
                let v = serde_json::json!({"sub": s.name, "choices": rec, "failure": last.0, "case": last.1});
                std::fs::write(&unshrunk, v.to_string()).ok();
                for w in 0..n {
                    sl.set(w, u64::MAX - 1, 0);
                }
            }
            let best = shrink(rec, 6000, |c| {
                let mut src = Src::replay(c.to_vec());
                let (r, obs) = run_one(s, &mut src);
                match r {
                    Outcome::Fail(m)
                        if !sig_of(&m).is_some_and(|k| known.iter().any(|(s, _)| s == k)) =>
                    {
                        last = (m, obs.show);
                        Some(src.rec)
                    }
                    _ => None,
                }
            });
            let mut src = Src::replay(best.clone());
            let (r, obs) = run_one(s, &mut src);
            if let Outcome::Fail(m) = r {
                last = (m, obs.show);
            }
            std::fs::remove_file(&unshrunk).ok();
            let f = write_replay(p, s, &best, &last.0, &last.1);
            write_evidence(p, &stats, start.elapsed(), 1, &[]);
            report_violation(p, s, &f, &last.0, &last.1);
            return EXIT_VIOLATION;
        }
    }
    let hits = known_hits.into_inner().unwrap();
    let mut notes = vec![];
    for (k, what) in &known {
        let n = hits.get(k).map(|h| h.0).unwrap_or(0);
        println!("KNOWN-FINDING: property={} {} ({} cases excluded this run)", p.id, what, n);
        notes.push(format!("known finding {k}: {n} cases excluded"));
    }
    write_evidence(p, &stats, start.elapsed(), 0, &notes);
    println!(
        "OK property={} cases={} distinct_nontrivial={} wall={:.1}s",
        p.id,
        stats.evals,
        stats.nontrivial.len(),
        start.elapsed().as_secs_f64()
    );
    EXIT_OK
}

fn write_evidence(p: &Property, st: &Stats, wall: Duration, violations: u64, notes: &[String]) {
    let dir = verif_dir().join("evidence");
    std::fs::create_dir_all(&dir).ok();
    let labels: serde_json::Map<String, serde_json::Value> =
        st.labels.iter().map(|(k, v)| (k.clone(), (*v).into())).collect();
    let per: serde_json::Map<String, serde_json::Value> = st
        .per_sub
        .iter()
        .map(|(k, v)| (k.clone(), serde_json::json!({"cases": v.0, "nontrivial": v.1})))
        .collect();
    let samples: Vec<serde_json::Value> = st
        .samples
        .iter()
        .map(|(s, c)| serde_json::json!({"sub": s, "case": c}))
        .collect();
    let mut assumptions: Vec<String> = p.assumptions.iter().map(|s| s.to_string()).collect();
    assumptions.extend(notes.iter().cloned());
    let v = serde_json::json!({
        "property": p.id, "tier": tier(), "seed": seed(), "level": "exploration",
        "coverage": {
            "evaluations": st.evals, "distinct": st.distinct.len(),
            "distinct_nontrivial": st.nontrivial.len(), "rule": p.rule,
            "samples": samples, "classes": labels, "per_check": per,
        },
        "assumptions": assumptions, "wall_s": wall.as_secs_f64(), "violations": violations,
    });
    let f = dir.join(format!("{}.json", p.id));
    std::fs::write(f, serde_json::to_string_pretty(&v).unwrap() + "\n").expect("evidence");
    let _ = json_str;
}

/// assert_eq with readable text
pub fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: &T, want: &T) -> Res {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}:\n  got      {:?}\n  expected {:?}", got, want))
    }
}
pub fn same_str(what: &str, got: &str, want: &str) -> Res {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}:\n  got      {}\n  expected {}", got, want))
    }
}

//! Stateless exploration of a choice tree: every execution of a task is
//! determined by the sequence of answers to `pick`/`dev`; the explorer runs the
//! task once for every such sequence (depth first, in order), in parallel over
//! tasks and over the first choices of a task.
//!
//! `pick(n)` branches into all n alternatives.  `dev(n)` branches as well, but
//! alternatives other than 0 cost one deviation from a bounded budget.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{HashSet, VecDeque};
use std::hash::{BuildHasherDefault, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- allocator

/// What code inside of a guarded call with a limit holds at once, and what it
/// asks for all in all.
pub fn measure<R>(f: impl FnOnce() -> R) -> (R, usize, usize) {
    let before = LIVE.with(|l| l.get());
    let peak = PEAK.with(|p| p.replace(before));
    let total = TOTAL.with(|t| t.replace(0));
    let r = f();
    let top = PEAK.with(|p| p.get());
    PEAK.with(|p| p.set(top.max(peak)));
    let all = TOTAL.with(|t| t.replace(t.get().saturating_add(total)));
    (r, (top - before).max(0) as usize, all)
}

/// Counts what the current thread allocates inside a guarded call and ends the
/// process with a violation when that gets out of hand.
pub struct CountingAlloc;

thread_local! {
    static LIMIT: Cell<usize> = const { Cell::new(usize::MAX) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static TOTAL: Cell<usize> = const { Cell::new(0) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
    static LAST_PANIC: Cell<Option<String>> = const { Cell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

#[inline]
fn note_alloc(size: usize) {
    let limit = LIMIT.try_with(|l| l.get()).unwrap_or(usize::MAX);
    if limit != usize::MAX {
        let live = LIVE.with(|l| {
            let v = l.get().saturating_add(size.min(isize::MAX as usize / 2) as isize);
            l.set(v);
            v
        });
        PEAK.with(|p| {
            if live > p.get() {
                p.set(live)
            }
        });
        TOTAL.with(|t| t.set(t.get().saturating_add(size)));
        if live > 0 && live as usize > limit {
            LIMIT.with(|l| l.set(usize::MAX));
            fatal_violation(&format!(
                "memory out of proportion: {live} bytes live inside one call, limit {limit}"
            ));
        }
    }
}
#[inline]
fn note_free(size: usize) {
    if LIMIT.try_with(|l| l.get()).unwrap_or(usize::MAX) != usize::MAX {
        LIVE.with(|l| l.set(l.get().saturating_sub(size as isize)));
    }
}

unsafe impl GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note_alloc(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note_free(l.size());
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note_alloc(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        note_alloc(new);
        note_free(l.size());
        System.realloc(p, l, new)
    }
}

// ------------------------------------------------------------------- slots

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

pub const SLOTS: usize = 64;
const SLOT_SIZE: usize = 1 << 16;

/// What every worker is doing right now, in a file mapping which survives the
/// death of this process.
struct Slots {
    base: *mut u8,
    started: Vec<AtomicU64>,
}
unsafe impl Send for Slots {}
unsafe impl Sync for Slots {}

static SLOTS_PTR: std::sync::OnceLock<Slots> = std::sync::OnceLock::new();
static RUN: std::sync::OnceLock<Arc<Run>> = std::sync::OnceLock::new();
static EPOCH: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();

fn now_ms() -> u64 {
    EPOCH.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

fn init_slots(path: &str) {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(true)
        .truncate(true)
        .open(path)
        .expect("slot file");
    f.set_len((SLOTS * SLOT_SIZE) as u64).expect("slot file size");
    let base = unsafe { mmap(std::ptr::null_mut(), SLOTS * SLOT_SIZE, 3, 1, f.as_raw_fd(), 0) };
    assert!(base as isize != -1, "mmap");
    let _ = SLOTS_PTR.set(Slots { base, started: (0..SLOTS).map(|_| AtomicU64::new(0)).collect() });
}

fn slot_write(slot: usize, off: usize, parts: &[&[u8]]) {
    if slot == usize::MAX {
        return;
    }
    let Some(s) = SLOTS_PTR.get() else { return };
    unsafe {
        let p = s.base.add(slot * SLOT_SIZE + off);
        let cap = if off == 0 { 4096 } else { SLOT_SIZE - off } - 4;
        let mut n = 0;
        for part in parts {
            let k = part.len().min(cap - n);
            std::ptr::copy_nonoverlapping(part.as_ptr(), p.add(4 + n), k);
            n += k;
        }
        std::ptr::write_unaligned(p as *mut u32, n as u32);
    }
}

fn slot_text(buf: &[u8], slot: usize, off: usize) -> Vec<u8> {
    let b = &buf[slot * SLOT_SIZE + off..];
    let n = u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as usize;
    b[4..4 + n.min(SLOT_SIZE - 4100)].to_vec()
}

fn slot_case(slot: usize) -> (String, String) {
    let Some(s) = SLOTS_PTR.get() else { return Default::default() };
    if slot == usize::MAX {
        return Default::default();
    }
    let buf = unsafe { std::slice::from_raw_parts(s.base, SLOTS * SLOT_SIZE) };
    (
        String::from_utf8_lossy(&slot_text(buf, slot, 0)).into_owned(),
        show_bytes(&slot_text(buf, slot, 4096)),
    )
}

pub fn show_bytes(b: &[u8]) -> String {
    match std::str::from_utf8(b) {
        Ok(s) => format!("{s:?}"),
        Err(_) => b.iter().map(|x| format!("{x:02x}")).collect::<Vec<_>>().join(" "),
    }
}

/// A violation found where no unwinding is possible.
fn fatal_violation(msg: &str) -> ! {
    let slot = SLOT.try_with(|s| s.get()).unwrap_or(usize::MAX);
    fatal_violation_at(slot, msg)
}
fn fatal_violation_at(slot: usize, msg: &str) -> ! {
    let (task, case) = slot_case(slot);
    if let Some(run) = RUN.get() {
        run.record(&task, &[], "fatal", &format!("{msg}\n  case: {case}"));
        run.finish_violations();
        run.write_evidence();
    }
    std::process::exit(1)
}

// --------------------------------------------------------------------- run

#[derive(Default, Clone)]
pub struct Stats {
    pub executions: u64,
    pub transitions: u64,
    pub traces: u64,
    pub counted_states: u64,
    pub counters: std::collections::BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
}

#[derive(Default, Clone)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v
    }
}
pub type IdSet = HashSet<u64, BuildHasherDefault<IdHasher>>;

pub fn hash_bytes(parts: &[&[u8]]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for p in parts {
        for chunk in p.chunks(8) {
            let mut b = [0u8; 8];
            b[..chunk.len()].copy_from_slice(chunk);
            h = (h ^ u64::from_le_bytes(b) ^ ((chunk.len() as u64) << 56)).wrapping_mul(0x9E3779B97F4A7C15);
            h ^= h >> 29;
        }
        h = (h ^ 0xff51afd7ed558ccd).wrapping_mul(0xc4ceb9fe1a85ec53);
        h ^= h >> 32;
    }
    h
}

pub struct Violation {
    pub task: String,
    pub path: Vec<u32>,
    pub key: String,
    pub text: String,
}

pub struct Run {
    pub id: String,
    pub tier: String,
    pub level: &'static str,
    pub rule: String,
    pub bounds: String,
    pub assumptions: Vec<String>,
    pub start: Instant,
    pub violations: Mutex<Vec<Violation>>,
    pub known_hit: Mutex<Vec<String>>,
    pub known: Vec<(String, String)>,
    pub stats: Mutex<Stats>,
    pub states: Vec<Mutex<IdSet>>,
    pub stop: AtomicBool,
    pub finished: AtomicBool,
    pub only: Option<(String, Vec<u32>)>,
    pub verbose: bool,
    pub hang_ms: u64,
}

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Run {
    /// Note a violation; the first few are kept and end the exploration.
    pub fn record(&self, task: &str, path: &[u32], key: &str, text: &str) {
        let full_key = format!("{task}|{key}");
        for (k, what) in &self.known {
            if *k == full_key {
                let mut kh = self.known_hit.lock().unwrap();
                if !kh.contains(what) {
                    kh.push(what.clone());
                }
                return;
            }
        }
        let mut v = self.violations.lock().unwrap();
        if v.len() < 4 {
            v.push(Violation { task: task.into(), path: path.to_vec(), key: full_key, text: text.into() });
        }
        if v.len() >= 4 && self.only.is_none() {
            self.stop.store(true, SeqCst);
        }
    }

    pub fn finish_violations(&self) -> bool {
        if self.finished.swap(true, SeqCst) {
            // another thread is already reporting
            std::thread::sleep(Duration::from_secs(30));
        }
        for k in self.known_hit.lock().unwrap().iter() {
            println!("KNOWN-FINDING: property={} {}", self.id, k);
        }
        let v = self.violations.lock().unwrap();
        let dir = format!("{}/evidence/replays", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        for (n, x) in v.iter().enumerate() {
            let file = format!("{dir}/{}-{}.json", self.id, n);
            let path = x.path.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",");
            let body = format!(
                "{{\"property\":{},\"tier\":{},\"task\":{},\"path\":{},\"key\":{},\"text\":{}}}\n",
                json_str(&self.id),
                json_str(&self.tier),
                json_str(&x.task),
                json_str(&path),
                json_str(&x.key),
                json_str(&x.text)
            );
            let _ = std::fs::write(&file, body);
            println!("{} [{}] {}", self.id, x.task, x.text);
            println!("VIOLATION property={} replay={}", self.id, file);
        }
        use std::io::Write;
        let _ = std::io::stdout().flush();
        !v.is_empty()
    }

    pub fn write_evidence(&self) {
        if self.only.is_some() {
            return;
        }
        let st = self.stats.lock().unwrap();
        let distinct: u64 =
            self.states.iter().map(|s| s.lock().unwrap().len() as u64).sum::<u64>() + st.counted_states;
        let mut cov = String::new();
        match self.level {
            "model_checking" => {
                cov += &format!("\"states\":{distinct},\"transitions\":{},\"traces_validated_against_impl\":{}", st.transitions, st.traces);
            }
            _ => {
                cov += &format!("\"evaluations\":{},\"distinct_nontrivial\":{distinct},\"transitions\":{}", st.traces, st.transitions);
            }
        }
        cov += &format!(",\"rule\":{},\"bounds\":{}", json_str(&self.rule), json_str(&self.bounds));
        for (k, v) in &st.counters {
            cov += &format!(",{}:{}", json_str(k), v);
        }
        let exhaustive = !self.stop.load(SeqCst) && self.violations.lock().unwrap().is_empty();
        cov += &format!(",\"exhaustive\":{exhaustive}");
        let samples = st.samples.iter().take(12).map(|s| json_str(s)).collect::<Vec<_>>().join(",");
        cov += &format!(",\"samples\":[{samples}]");
        let body = format!(
            "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":{},\"coverage\":{{{cov}}},\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{}}}\n",
            json_str(&self.id),
            json_str(&self.tier),
            std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
            json_str(self.level),
            self.assumptions.iter().map(|a| json_str(a)).collect::<Vec<_>>().join(","),
            self.start.elapsed().as_secs_f64(),
            self.violations.lock().unwrap().len(),
        );
        let dir = format!("{}/evidence", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        let _ = std::fs::write(format!("{dir}/{}.json", self.id), body);
    }
}

// --------------------------------------------------------------------- ctx

pub struct Ctx {
    pub run: Arc<Run>,
    pub task: String,
    path: Vec<(u32, u32)>,
    pos: usize,
    budget: usize,
    pub stats: Stats,
    slot: usize,
    forced_prefix: usize,
    pub thorough: bool,
}

impl Ctx {
    /// One of n alternatives, all explored.
    pub fn pick(&mut self, n: usize) -> usize {
        assert!(n > 0, "pick(0) in {}", self.task);
        if n == 1 {
            return 0;
        }
        if self.pos < self.path.len() {
            let (c, m) = self.path[self.pos];
            if m == u32::MAX {
                // forced prefix whose arity was not known
                self.path[self.pos].1 = n as u32;
            } else if m != n as u32 {
                panic!("replay diverged in {}: {} alternatives became {}", self.task, m, n);
            }
            assert!((c as usize) < n, "replay choice out of range in {}", self.task);
            self.pos += 1;
            return c as usize;
        }
        self.path.push((0, n as u32));
        self.pos += 1;
        self.stats.transitions += 1;
        0
    }
    /// One of n alternatives, where every alternative but 0 is a deviation.
    pub fn dev(&mut self, n: usize) -> usize {
        if self.budget == 0 || n <= 1 {
            return 0;
        }
        let c = self.pick(n);
        if c != 0 {
            self.budget -= 1;
        }
        c
    }
    pub fn flag(&mut self) -> bool {
        self.pick(2) == 1
    }
    pub fn budget(&self) -> usize {
        self.budget
    }
    pub fn set_budget(&mut self, b: usize) {
        self.budget = b;
    }
    pub fn path_str(&self) -> Vec<u32> {
        self.path[..self.pos].iter().map(|p| p.0).collect()
    }
    /// A complete execution of the real code was compared with the model.
    pub fn trace(&mut self) {
        self.stats.traces += 1;
    }
    pub fn state(&mut self, parts: &[&[u8]]) -> bool {
        let h = hash_bytes(parts);
        let mut s = self.run.states[(h >> 56) as usize & 63].lock().unwrap();
        // beyond 128 million the number is a lower bound
        s.len() < 2_000_000 && s.insert(h)
    }
    pub fn count(&mut self, name: &'static str, n: u64) {
        *self.stats.counters.entry(name).or_default() += n;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.stats.samples.len() < 2 {
            let mut s = f();
            if s.len() > 400 {
                let mut k = 400;
                while !s.is_char_boundary(k) {
                    k -= 1
                }
                s.truncate(k);
                s.push('…');
            }
            self.stats.samples.push(s);
        }
    }
    pub fn violation(&mut self, key: &str, text: &str) {
        let p = self.path_str();
        let mut t = text.to_string();
        if t.len() > 6000 {
            let mut k = 6000;
            while !t.is_char_boundary(k) {
                k -= 1
            }
            t.truncate(k);
            t.push('…');
        }
        let mut k = key.to_string();
        if k.len() > 300 {
            k = format!("{:016x}", hash_bytes(&[key.as_bytes()]));
        }
        self.run.record(&self.task, &p, &k, &t);
    }
    pub fn stopped(&self) -> bool {
        self.run.stop.load(SeqCst)
    }
    /// Run code under test: panics become Err, hangs and excessive memory end
    /// the run with a violation.
    pub fn guard<R>(&mut self, case: &[&[u8]], mem: usize, f: impl FnOnce() -> R) -> Result<R, String> {
        slot_write(self.slot, 4096, case);
        if let Some(s) = SLOTS_PTR.get() {
            s.started[self.slot].store(now_ms(), SeqCst);
        }
        LIVE.with(|l| l.set(0));
        PEAK.with(|l| l.set(0));
        LIMIT.with(|l| l.set(mem));
        let r = catch_unwind(AssertUnwindSafe(f));
        LIMIT.with(|l| l.set(usize::MAX));
        if let Some(s) = SLOTS_PTR.get() {
            s.started[self.slot].store(0, SeqCst);
        }
        r.map_err(|_| LAST_PANIC.with(|p| p.take()).unwrap_or_else(|| "panic".into()))
    }
    /// Peak memory of the last guarded call.
    pub fn peak(&self) -> usize {
        PEAK.with(|p| p.get()).max(0) as usize
    }
}

// ------------------------------------------------------------------- tasks

pub struct Task {
    pub name: String,
    /// Deviation budget.
    pub dev: usize,
    /// How many leading choices are distributed over the workers.
    pub split: usize,
    pub f: Box<dyn Fn(&mut Ctx) + Send + Sync>,
}

pub fn task(name: impl Into<String>, dev: usize, split: usize, f: impl Fn(&mut Ctx) + Send + Sync + 'static) -> Task {
    Task { name: name.into(), dev, split, f: Box::new(f) }
}

struct Queue {
    items: Mutex<(VecDeque<(usize, Vec<(u32, u32)>)>, usize)>,
    cv: Condvar,
}

fn run_item(ctx: &mut Ctx, t: &Task, ti: usize, prefix: Vec<(u32, u32)>, q: &Queue) {
    let fixed = prefix.len();
    ctx.task = t.name.clone();
    ctx.path = prefix;
    ctx.forced_prefix = fixed;
    let split_here = fixed < t.split;
    loop {
        ctx.pos = 0;
        ctx.budget = t.dev;
        if ctx.slot < SLOTS {
            let p = ctx.path.iter().map(|p| p.0.to_string()).collect::<Vec<_>>().join(",");
            slot_write(ctx.slot, 0, &[t.name.as_bytes(), b"\x01", p.as_bytes()]);
        }
        ctx.stats.executions += 1;
        let r = catch_unwind(AssertUnwindSafe(|| (t.f)(ctx)));
        if r.is_err() {
            LIMIT.with(|l| l.set(usize::MAX));
            let msg = LAST_PANIC.with(|p| p.take()).unwrap_or_default();
            eprintln!("harness error in task {} path {:?}: {}", t.name, ctx.path_str(), msg);
            HARNESS_ERROR.store(true, SeqCst);
            ctx.run.stop.store(true, SeqCst);
            return;
        }
        if ctx.pos < ctx.path.len() {
            eprintln!("harness error: execution of {} ended before its recorded path", t.name);
            HARNESS_ERROR.store(true, SeqCst);
            ctx.run.stop.store(true, SeqCst);
            return;
        }
        if ctx.run.only.is_some() {
            return;
        }
        if split_here && ctx.path.len() > fixed {
            // hand the other answers to the first choice after the prefix to
            // the other workers, and go on with this one
            let n = ctx.path[fixed].1;
            let mut g = q.items.lock().unwrap();
            for c in 1..n {
                let mut p = ctx.path[..fixed].to_vec();
                p.push((c, n));
                g.0.push_back((ti, p));
                ctx.stats.transitions += 1;
            }
            let mut p = ctx.path[..fixed].to_vec();
            p.push((0, n));
            g.0.push_back((ti, p));
            // this execution will be repeated by the item for choice 0
            ctx.stats.executions -= 1;
            q.cv.notify_all();
            return;
        }
        // backtrack
        loop {
            if ctx.path.len() <= fixed {
                return;
            }
            let last = ctx.path.last_mut().unwrap();
            if last.0 + 1 < last.1 {
                last.0 += 1;
                ctx.stats.transitions += 1;
                break;
            }
            ctx.path.pop();
        }
        if ctx.stopped() {
            return;
        }
    }
}

pub static HARNESS_ERROR: AtomicBool = AtomicBool::new(false);

pub struct Plan {
    pub level: &'static str,
    pub rule: String,
    pub bounds: String,
    pub assumptions: Vec<String>,
    pub tasks: Vec<Task>,
    /// A single guarded call running longer than this hangs.
    pub hang_ms: u64,
    pub stack: usize,
}

impl Plan {
    pub fn new(rule: &str, bounds: String, tasks: Vec<Task>) -> Plan {
        Plan {
            level: "model_checking",
            rule: rule.into(),
            bounds,
            assumptions: vec![
                "the reference model in /verif/mc/src states the property correctly".into(),
                "rustc, std and the sandbox work".into(),
            ],
            tasks,
            hang_ms: 20_000,
            stack: 64 << 20,
        }
    }
    /// More tasks, and what they add to the bounds.
    pub fn also(mut self, bounds: &str, tasks: Vec<Task>) -> Plan {
        self.bounds += "; ";
        self.bounds += bounds;
        self.tasks.extend(tasks);
        self
    }
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        LIMIT.with(|l| l.set(usize::MAX));
        LAST_PANIC.with(|p| p.set(Some(format!("{msg}{loc}"))));
    }));
}

fn load_known(id: &str) -> Vec<(String, String)> {
    // lines: known: property=<id> key=<key> what=<text>
    let text = std::fs::read_to_string(format!("{}/known_findings.txt", verif_dir())).unwrap_or_default();
    let mut v = vec![];
    for l in text.lines() {
        if let Some(rest) = l.strip_prefix("known: ") {
            if let Some(rest) = rest.strip_prefix(&format!("property={id} ")) {
                if let Some((k, w)) = rest.strip_prefix("key=").and_then(|r| r.split_once(" what=")) {
                    v.push((k.to_string(), w.to_string()));
                }
            }
        }
    }
    v
}

/// Explore all tasks; the exit code of the check.
pub fn run_plan(id: &str, tier: &str, plan: Plan, only: Option<(String, Vec<u32>)>, slot_file: &str) -> i32 {
    install_hook();
    EPOCH.get_or_init(Instant::now);
    init_slots(slot_file);
    let run = Arc::new(Run {
        id: id.into(),
        tier: tier.into(),
        level: plan.level,
        rule: plan.rule.clone(),
        bounds: plan.bounds.clone(),
        assumptions: plan.assumptions.clone(),
        start: Instant::now(),
        violations: Mutex::new(vec![]),
        known_hit: Mutex::new(vec![]),
        known: load_known(id),
        stats: Mutex::new(Stats::default()),
        states: (0..64).map(|_| Mutex::new(IdSet::default())).collect(),
        stop: AtomicBool::new(false),
        finished: AtomicBool::new(false),
        only: only.clone(),
        verbose: std::env::var("MC_VERBOSE").is_ok(),
        hang_ms: plan.hang_ms,
    });
    let _ = RUN.set(run.clone());

    let mut items = VecDeque::new();
    for (i, t) in plan.tasks.iter().enumerate() {
        match &only {
            Some((name, path)) if *name == t.name => {
                items.push_back((i, path.iter().map(|c| (*c, u32::MAX)).collect::<Vec<_>>()))
            }
            Some(_) => {}
            // for development: only the tasks whose names contain a text
            None if std::env::var("MC_TASKS").is_ok_and(|n| !t.name.contains(&n)) => {}
            None => items.push_back((i, vec![])),
        }
    }
    let names: HashSet<&String> = plan.tasks.iter().map(|t| &t.name).collect();
    assert_eq!(names.len(), plan.tasks.len(), "task names must be unique");
    let ntasks = items.len();
    let q = Arc::new(Queue { items: Mutex::new((items, 0)), cv: Condvar::new() });
    let tasks = Arc::new(plan.tasks);
    let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(SLOTS - 1);
    let done = Arc::new(AtomicUsize::new(0));

    // watchdog
    {
        let run = run.clone();
        let hang_ms = plan.hang_ms;
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(250));
            let s = SLOTS_PTR.get().unwrap();
            for w in 0..SLOTS {
                let t = s.started[w].load(SeqCst);
                if t != 0 && now_ms() > t + hang_ms && !run.finished.load(SeqCst) {
                    fatal_violation_at(w, &format!("does not terminate (one call runs for over {hang_ms} ms)"));
                }
            }
        });
    }

    let times: Arc<Mutex<Vec<(f64, u64, String)>>> = Default::default();
    let mut handles = vec![];
    for w in 0..workers {
        let (run, q, tasks, done, times) = (run.clone(), q.clone(), tasks.clone(), done.clone(), times.clone());
        let thorough = tier == "thorough";
        handles.push(
            std::thread::Builder::new()
                .stack_size(plan.stack)
                .spawn(move || {
                    SLOT.with(|s| s.set(w));
                    loop {
                        let item = {
                            let mut g = q.items.lock().unwrap();
                            loop {
                                if run.stop.load(SeqCst) {
                                    return;
                                }
                                if let Some(it) = g.0.pop_front() {
                                    g.1 += 1;
                                    break it;
                                }
                                if g.1 == 0 {
                                    q.cv.notify_all();
                                    return;
                                }
                                g = q.cv.wait_timeout(g, Duration::from_millis(50)).unwrap().0;
                            }
                        };
                        let t0 = Instant::now();
                        let mut ctx = Ctx {
                            run: run.clone(),
                            task: String::new(),
                            path: vec![],
                            pos: 0,
                            budget: 0,
                            stats: Stats::default(),
                            slot: w,
                            forced_prefix: 0,
                            thorough,
                        };
                        run_item(&mut ctx, &tasks[item.0], item.0, item.1, &q);
                        if run.verbose {
                            times.lock().unwrap().push((t0.elapsed().as_secs_f64(), ctx.stats.executions, tasks[item.0].name.clone()));
                        }
                        {
                            let mut s = run.stats.lock().unwrap();
                            s.executions += ctx.stats.executions;
                            s.transitions += ctx.stats.transitions;
                            s.traces += ctx.stats.traces;
                            s.counted_states += ctx.stats.counted_states;
                            for (k, v) in &ctx.stats.counters {
                                *s.counters.entry(k).or_default() += v;
                            }
                            if s.samples.len() < 12 && done.fetch_add(1, SeqCst) % (1 + ntasks / 8) == 0 {
                                s.samples.extend(ctx.stats.samples.iter().take(1).cloned());
                            }
                        }
                        let mut g = q.items.lock().unwrap();
                        g.1 -= 1;
                        q.cv.notify_all();
                    }
                })
                .unwrap(),
        );
    }
    for h in handles {
        if h.join().is_err() {
            HARNESS_ERROR.store(true, SeqCst);
        }
    }
    if run.verbose {
        let mut t = times.lock().unwrap();
        t.sort_by(|a, b| b.0.total_cmp(&a.0));
        let mut sum: std::collections::BTreeMap<&str, (f64, u64)> = Default::default();
        for (s, n, name) in t.iter() {
            let e = sum.entry(name).or_default();
            e.0 += s;
            e.1 += n;
        }
        let mut sum: Vec<_> = sum.into_iter().collect();
        sum.sort_by(|a, b| b.1 .0.total_cmp(&a.1 .0));
        for (name, (s, n)) in sum.iter().take(25) {
            eprintln!("{s:8.3}s {n:10} {name}");
        }
    }
    let bad = run.finish_violations();
    run.write_evidence();
    {
        let s = run.stats.lock().unwrap();
        eprintln!(
            "{id} {tier}: {} tasks, {} executions, {} transitions, {} traces, {} states, {:.1}s",
            ntasks,
            s.executions,
            s.transitions,
            s.traces,
            run.states.iter().map(|s| s.lock().unwrap().len() as u64).sum::<u64>() + s.counted_states,
            run.start.elapsed().as_secs_f64()
        );
    }
    if bad {
        1
    } else if HARNESS_ERROR.load(SeqCst) {
        2
    } else {
        0
    }
}

/// Run the check in a child process; a child which dies of a signal while
/// executing code under test, reproducibly, is a violation.
pub fn supervise(id: &str, tier: &str) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().unwrap();
    let dir = format!("{}/evidence/tmp", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let slot = format!("{dir}/{id}.{}.slots", std::process::id());
    let st = std::process::Command::new(&exe).args(["child", id, tier, &slot]).status().expect("child");
    let code = match st.code() {
        Some(c) => c,
        None => {
            let sig = st.signal().unwrap_or(0);
            let buf = std::fs::read(&slot).unwrap_or_default();
            let mut found = false;
            if buf.len() == SLOTS * SLOT_SIZE {
                for w in 0..SLOTS {
                    let head = String::from_utf8_lossy(&slot_text(&buf, w, 0)).into_owned();
                    if head.is_empty() {
                        continue;
                    }
                    let Some((task, path)) = head.split_once('\x01') else { continue };
                    let slot2 = format!("{slot}.r");
                    let st2 = std::process::Command::new(&exe)
                        .args(["only", id, tier, &slot2, task, path])
                        .stdout(std::process::Stdio::null())
                        .status()
                        .expect("child");
                    if let Some(sig2) = st2.signal() {
                        let buf2 = std::fs::read(&slot2).unwrap_or_default();
                        let case = show_bytes(&slot_text(&buf2, 0, 4096));
                        let rdir = format!("{}/evidence/replays", verif_dir());
                        let _ = std::fs::create_dir_all(&rdir);
                        let file = format!("{rdir}/{id}-crash.json");
                        let text = format!("process killed by signal {sig2} (stack overflow or abort), case: {case}");
                        let _ = std::fs::write(
                            &file,
                            format!(
                                "{{\"property\":{},\"tier\":{},\"task\":{},\"path\":{},\"key\":\"crash\",\"text\":{}}}\n",
                                json_str(id),
                                json_str(tier),
                                json_str(task),
                                json_str(path),
                                json_str(&text)
                            ),
                        );
                        println!("{id} [{task}] {text}");
                        println!("VIOLATION property={id} replay={file}");
                        found = true;
                    }
                    let _ = std::fs::remove_file(&slot2);
                    if found {
                        break;
                    }
                }
            }
            if found {
                1
            } else {
                eprintln!("check died of signal {sig} and that does not reproduce");
                2
            }
        }
    };
    let _ = std::fs::remove_file(&slot);
    code
}

fn choices(s: &str) -> Vec<u32> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().expect("path")).collect()
}

/// The command line of a program which runs checks.
pub fn main_with(plan: impl Fn(&str, bool) -> Plan) -> i32 {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = a.iter().map(|s| &s[..]).collect();
    match &a[..] {
        ["run", id, tier] => supervise(id, tier),
        ["child", id, tier, slots] => run_plan(id, tier, plan(id, *tier == "thorough"), None, slots),
        ["only", id, tier, slots, task, p] => {
            run_plan(id, tier, plan(id, *tier == "thorough"), Some((task.to_string(), choices(p))), slots)
        }
        ["replay", file] => {
            let text = std::fs::read_to_string(file).expect("replay file");
            let Ok(crate::rfc::J::Obj(o)) = crate::rfc::parse(text.trim()) else { panic!("replay file") };
            let get = |k: &str| match o.iter().find(|x| x.0 == k) {
                Some((_, crate::rfc::J::Str(s))) => s.clone(),
                _ => panic!("replay file has no {k}"),
            };
            let (id, tier) = (get("property"), get("tier"));
            let slots = format!("{file}.slots");
            let code = run_plan(
                &id,
                &tier,
                plan(&id, tier == "thorough"),
                Some((get("task"), choices(&get("path")))),
                &slots,
            );
            let _ = std::fs::remove_file(&slots);
            code
        }
        _ => {
            eprintln!("run ID TIER");
            2
        }
    }
}

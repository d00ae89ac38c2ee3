//! A bounded space of calls for an interpreter which sees what a processor
//! does not show: undefined behaviour (C25), and what becomes of a call on
//! machines of other word sizes and byte orders (C26).
//!
//! ub run SET LEVEL SHARD OF    a digest of every task of the shard
//! ub list SET LEVEL TASK       the result of every execution of a task
//! ub one SET LEVEL TASK PATH   one execution
//!
//! Level 0 is small enough for an interpreter which takes a tenth of a second
//! for what takes microseconds otherwise.

#[path = "../../mc/src/gen.rs"]
pub mod gen;
#[path = "../../mc/src/schema.rs"]
pub mod schema;
#[path = "../../mc/src/types.rs"]
pub mod types;

pub mod engine;
mod docs;
mod elems;
mod pairs;
mod words;

use engine::Ctx;

pub type Case = Box<dyn Fn(&mut Ctx) -> String>;

pub struct Task {
    pub name: String,
    pub budget: usize,
    pub f: Case,
}

pub fn task(name: String, budget: usize, f: impl Fn(&mut Ctx) -> String + 'static) -> Task {
    Task { name, budget, f: Box::new(f) }
}

fn tasks(set: &str, level: usize, shard: usize, of: usize) -> Vec<Task> {
    match set {
        // the same everywhere
        "all" => docs::tasks(level),
        "some" => docs::few(level),
        "none" => vec![],
        // depends on the width of usize, and says itself what it expects
        "word" => words::tasks(level),
        "elem" => elems::tasks(level, false),
        // what was decoded before a panic is left behind
        "panic" => elems::tasks(level, true),
        "pair" => pairs::tasks(shard, of),
        _ => panic!("no set {set}"),
    }
}

/// Arguments and output, which a bare WebAssembly machine has not.
#[cfg(target_arch = "wasm32")]
mod host {
    #[link(wasm_import_module = "host")]
    extern "C" {
        fn arg(k: u32, to: *mut u8) -> i32;
        fn put(from: *const u8, n: u32);
    }
    pub fn args() -> Vec<String> {
        let mut buf = [0u8; 4096];
        let mut v = vec![];
        loop {
            let n = unsafe { arg(v.len() as u32, buf.as_mut_ptr()) };
            if n < 0 {
                return v;
            }
            v.push(String::from_utf8_lossy(&buf[..n as usize]).into_owned());
        }
    }
    pub fn say(s: &str) {
        unsafe { put(s.as_ptr(), s.len() as u32) }
    }
    pub fn start() {
        std::panic::set_hook(Box::new(|p| say(&format!("{p}\n"))));
    }
}
#[cfg(not(target_arch = "wasm32"))]
mod host {
    pub fn args() -> Vec<String> {
        std::env::args().skip(1).collect()
    }
    pub fn say(s: &str) {
        print!("{s}")
    }
    pub fn start() {}
}
macro_rules! say {
    ($($t:tt)*) => { host::say(&(format!($($t)*) + "\n")) };
}

const START: u64 = 0xcbf2_9ce4_8422_2325;
struct Fnv(u64);
impl Fnv {
    fn add(&mut self, s: &str) {
        for b in s.as_bytes().iter().chain(&[0xff]) {
            self.0 = (self.0 ^ *b as u64).wrapping_mul(0x100_0000_01b3);
        }
    }
}

fn main() {
    host::start();
    let a = host::args();
    let number = |k: usize| a[k].parse::<usize>().expect("a number");
    let (shard, of) = if a[0] == "run" { (number(3), number(4)) } else { (0, 1) };
    let all = tasks(&a[1], number(2), shard, of);
    match &a[0][..] {
        "run" => {
            for (_, t) in all.iter().enumerate().filter(|(k, _)| k % of == shard) {
                say!("TASK {}", t.name);
                let mut h = Fnv(START);
                let mut n = 0u64;
                let last = std::cell::RefCell::new(String::new());
                let mut wrong = None;
                let mut results = std::collections::BTreeSet::new();
                let steps = engine::explore(
                    t.budget,
                    |c| *last.borrow_mut() = (t.f)(c),
                    |c| {
                        n += 1;
                        let last = last.borrow();
                        h.add(&last);
                        let mut one = Fnv(START);
                        one.add(&last);
                        results.insert(one.0);
                        if last.starts_with("WRONG") && wrong.is_none() {
                            wrong = Some(format!("{} AT {}", last.replace('\n', " "), c.name()));
                        }
                    },
                );
                say!("DONE {n} {steps} {} {:016x} {:?}", results.len(), h.0, last.into_inner());
                if let Some(w) = wrong {
                    say!("{w}");
                }
            }
            say!("END");
        }
        "list" => {
            let t = all.iter().find(|t| t.name == a[3]).expect("no such task");
            let last = std::cell::RefCell::new(String::new());
            engine::explore(t.budget, |c| *last.borrow_mut() = (t.f)(c), |c| say!("{} {:?}", c.name(), last.borrow()));
        }
        "one" => {
            let t = all.iter().find(|t| t.name == a[3]).expect("no such task");
            engine::replay(t.budget, &a[4], |c| say!("{}", (t.f)(c)));
        }
        _ => panic!("no command {}", a[0]),
    }
}

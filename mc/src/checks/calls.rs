//! Calls before, inside and beside one another: C24.

use super::*;
use crate::engine::*;
use nanoserde::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, LinkedList};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::Chars;
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

/// What a thread does whenever the crate calls back into code of the user.
type Hook = Box<dyn FnMut()>;
thread_local! {
    static HOOK: RefCell<Option<Hook>> = const { RefCell::new(None) };
}

fn set(hook: Option<Hook>) {
    HOOK.with(|h| *h.borrow_mut() = hook)
}

fn point() {
    // taken out while it runs, so that calls made by it are left alone
    let h = HOOK.with(|h| h.borrow_mut().take());
    if let Some(mut f) = h {
        f();
        HOOK.with(|h| {
            let mut h = h.borrow_mut();
            if h.is_none() {
                *h = Some(f)
            }
        });
    }
}

/// A number whose traits are written by hand: 8 panics, 9 is an error.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Cb(pub u8);

impl Cb {
    fn check(&self) -> bool {
        point();
        if self.0 == 8 {
            panic!("eight")
        }
        self.0 == 9
    }
}
impl DeBin for Cb {
    fn de_bin(o: &mut usize, d: &[u8]) -> Result<Self, DeBinErr> {
        let c = Cb(DeBin::de_bin(o, d)?);
        if c.check() {
            return Err(DeBinErr { o: *o, msg: nanoserde::DeBinErrReason::Range("nine".into()) });
        }
        Ok(c)
    }
}
impl SerBin for Cb {
    fn ser_bin(&self, s: &mut Vec<u8>) {
        self.check();
        self.0.ser_bin(s)
    }
}
impl DeJson for Cb {
    fn de_json(s: &mut DeJsonState, i: &mut Chars) -> Result<Self, DeJsonErr> {
        let c = Cb(DeJson::de_json(s, i)?);
        if c.check() {
            return Err(s.err_range("nine"));
        }
        Ok(c)
    }
}
impl SerJson for Cb {
    fn ser_json(&self, d: usize, s: &mut SerJsonState) {
        self.check();
        self.0.ser_json(d, s)
    }
}
impl DeRon for Cb {
    fn de_ron(s: &mut DeRonState, i: &mut Chars) -> Result<Self, DeRonErr> {
        let c = Cb(DeRon::de_ron(s, i)?);
        if c.check() {
            return Err(s.err_range("nine"));
        }
        Ok(c)
    }
}
impl SerRon for Cb {
    fn ser_ron(&self, d: usize, s: &mut SerRonState) {
        self.check();
        self.0.ser_ron(d, s)
    }
}

#[derive(DeBin, SerBin, DeJson, SerJson, DeRon, SerRon, Clone, Debug, PartialEq)]
pub struct Rec {
    pub name: String,
    pub a: Cb,
    pub next: Option<Box<Rec>>,
}
#[derive(DeBin, SerBin, DeJson, SerJson, DeRon, SerRon, Clone, Debug, PartialEq)]
pub enum Ev {
    Unit,
    One(Cb),
    Two { x: Cb, y: String },
}

#[derive(Clone)]
pub struct Op {
    pub name: String,
    /// How often it calls back when it succeeds.
    pub points: usize,
    run: Arc<dyn Fn() -> String + Send + Sync>,
}

impl Op {
    /// Run it; the result as text.
    pub fn go(&self) -> String {
        match catch_unwind(AssertUnwindSafe(|| (self.run)())) {
            Ok(s) => s,
            Err(_) => "panics".into(),
        }
    }
}

fn both<T: DeBin + SerBin + DeJson + SerJson + DeRon + SerRon + Clone + std::fmt::Debug + Send + Sync + 'static>(out: &mut Vec<Op>, ty: &str, v: T, points: usize, bad: &[u8]) {
    let add = |out: &mut Vec<Op>, name: String, run: Arc<dyn Fn() -> String + Send + Sync>| out.push(Op { name, points, run });
    let b = SerBin::serialize_bin(&v);
    let j = SerJson::serialize_json(&v);
    let r = SerRon::serialize_ron(&v);
    let w = v.clone();
    add(out, format!("write {ty} {v:?} in binary"), Arc::new(move || hex(&SerBin::serialize_bin(&w))));
    let w = v.clone();
    add(out, format!("write {ty} {v:?} as JSON"), Arc::new(move || SerJson::serialize_json(&w)));
    let w = v.clone();
    add(out, format!("write {ty} {v:?} as RON"), Arc::new(move || SerRon::serialize_ron(&w)));
    let mut bs = vec![b.clone()];
    let mut js = vec![j.clone()];
    let mut rs = vec![r.clone()];
    if points > 0 {
        // the last of the numbers is an error or panics; or the input ends
        for x in bad {
            let c = (b'0' + x) as char;
            let swap = |s: &str| s.rfind('7').map(|k| format!("{}{c}{}", &s[..k], &s[k + 1..])).unwrap();
            let mut e = b.clone();
            let k = e.iter().rposition(|x| *x == 7).unwrap();
            e[k] = *x;
            bs.push(e);
            js.push(swap(&j));
            rs.push(swap(&r));
        }
        bs.push(b[..b.len() - 1].to_vec());
        js.push(j[..j.len() - 1].into());
        rs.push(r[..r.len() - 2].into());
    }
    for d in bs {
        add(out, format!("read {ty} from {}", hex(&d)), Arc::new(move || format!("{:?}", <T as DeBin>::deserialize_bin(&d))));
    }
    for d in js {
        add(out, format!("read {ty} from JSON {d}"), Arc::new(move || format!("{:?}", <T as DeJson>::deserialize_json(&d))));
    }
    for d in rs {
        add(out, format!("read {ty} from RON {d:?}"), Arc::new(move || format!("{:?}", <T as DeRon>::deserialize_ron(&d))));
    }
}

/// Writing which panics.
fn writes<T: SerBin + SerJson + SerRon + Clone + std::fmt::Debug + Send + Sync + 'static>(out: &mut Vec<Op>, ty: &str, v: T, points: usize) {
    let w = v.clone();
    out.push(Op { name: format!("write {ty} {v:?} in binary"), points, run: Arc::new(move || hex(&w.serialize_bin())) });
    let w = v.clone();
    out.push(Op { name: format!("write {ty} {v:?} as JSON"), points, run: Arc::new(move || w.serialize_json()) });
    let w = v.clone();
    out.push(Op { name: format!("write {ty} {v:?} as RON"), points, run: Arc::new(move || w.serialize_ron()) });
}

/// What ends badly or is special in some way, without calling back.
fn plain(out: &mut Vec<Op>) {
    fn add(out: &mut Vec<Op>, name: String, run: Arc<dyn Fn() -> String + Send + Sync>) {
        out.push(Op { name, points: 0, run })
    }
    fn json<T: DeJson + std::fmt::Debug>(out: &mut Vec<Op>, ty: &str, t: &'static str) {
        add(out, format!("read {ty} from JSON {t:?}"), Arc::new(move || format!("{:?}", T::deserialize_json(t))))
    }
    fn ron<T: DeRon + std::fmt::Debug>(out: &mut Vec<Op>, ty: &str, t: &'static str) {
        add(out, format!("read {ty} from RON {t:?}"), Arc::new(move || format!("{:?}", T::deserialize_ron(t))))
    }
    fn bin<T: DeBin + std::fmt::Debug>(out: &mut Vec<Op>, ty: &str, d: &'static [u8]) {
        add(out, format!("read {ty} from {}", hex(d)), Arc::new(move || format!("{:?}", T::deserialize_bin(d))))
    }
    for t in ["1", "", "-", "1e", "true", "\"", "[1", "300", "1.5", "/*", "nul"] {
        json::<u8>(out, "u8", t);
        ron::<u8>(out, "u8", t);
    }
    for t in ["\"ab\"", "\"\\udc00\"", "\"\\ud800\\u00", "\"a\\n\\u00e9\"", "\"a", "\"a\\", "\"a\\q", "\"a\\u00", "\"\\ud83d", "abc", "\"\\ud83d\\ude00\""] {
        json::<String>(out, "String", t);
        ron::<String>(out, "String", t);
    }
    for t in ["1.25", "-0.5e3", "1e400", "1..", "-e", "nan"] {
        json::<f64>(out, "f64", t);
        ron::<f64>(out, "f64", t);
    }
    for t in ["[[1,2],[3]]", "[[1,2],[3", "[[1,2],3]", "[[1,2],[300]]"] {
        json::<Vec<Vec<u8>>>(out, "Vec<Vec<u8>>", t);
        ron::<Vec<Vec<u8>>>(out, "Vec<Vec<u8>>", t);
    }
    for t in ["{\"a\":1,\"b\":2}", "{\"a\":1,\"b\"", "{\"a\":1,\"b\":true}"] {
        json::<BTreeMap<String, u8>>(out, "BTreeMap<String, u8>", t);
        ron::<BTreeMap<String, u8>>(out, "BTreeMap<String, u8>", t);
    }
    // behind unknown keys, and inside of them
    json::<Rec>(out, "Rec", "{\"q\":[1,{\"r\":\"]\"}],\"name\":\"n\",\"a\":1}");
    json::<Rec>(out, "Rec", "{\"q\":[1,{\"r\":\"]\"");
    json::<Rec>(out, "Rec", "{\"name\":\"n\",\"a\":1,\"next\":{\"name\":\"m\"}}");
    ron::<Rec>(out, "Rec", "(name:\"n\",a:1,next:(name:\"m\"))");
    json::<Ev>(out, "Ev", "\"Nope\"");
    json::<Ev>(out, "Ev", "{\"Two\":{\"x\":1}}");
    ron::<Ev>(out, "Ev", "Nope");
    ron::<Ev>(out, "Ev", "Two(x:1)");
    bin::<String>(out, "String", b"\x02\0\0\0\0\0\0\0a");
    bin::<String>(out, "String", b"\x02\0\0\0\0\0\0\0\xff\xff");
    bin::<Vec<u16>>(out, "Vec<u16>", b"\xff\xff\xff\xff\xff\xff\xff\xff\x01\x02");
    bin::<Vec<u16>>(out, "Vec<u16>", b"\x01\0\0\0\0\0\0\0\x01\x02");
    bin::<Ev>(out, "Ev", b"\x09\0");
    for t in ["a = 1\n[b]\nc = \"x\\ny\"\n[[d]]\ne = [1, 2.5]\n", "a = ", "a = \"x", "a = [1, ", "[a", "[[a]]\nb = ", "a = \"\\u12", "x y", "a = 1-2", "a = -inf", "[[a]]\nb = 1\n[[a]]\nb = 2", "a = 1\n[[a]]"] {
        add(out, format!("read TOML {t:?}"), Arc::new(move || format!("{:?}", TomlParser::parse(t).map_err(|e| e.to_string()))));
    }
    add(out, "write strings as JSON".into(), Arc::new(|| SerJson::serialize_json(&["a\"\n\u{1}é😀", ""].map(String::from))));
    add(out, "write strings as RON".into(), Arc::new(|| SerRon::serialize_ron(&["a\"\n\u{1}é😀", ""].map(String::from))));
    add(out, "write numbers as JSON".into(), Arc::new(|| SerJson::serialize_json(&(f64::NAN, 1.5f32, i64::MIN, Some(1u8)))));
    add(out, "write a map as RON".into(), Arc::new(|| SerRon::serialize_ron(&BTreeMap::from([(1u8, vec![1.5f32]), (2, vec![])]))));
    add(out, "write a duration".into(), Arc::new(|| SerJson::serialize_json(&Duration::new(5, 6)) + &SerRon::serialize_ron(&Duration::new(7, 8)) + &hex(&SerBin::serialize_bin(&Duration::new(9, 10)))));
}

pub fn ops() -> Vec<Op> {
    let mut v = vec![];
    both(&mut v, "Vec<Cb>", vec![Cb(5), Cb(6), Cb(7)], 3, &[8, 9]);
    both(&mut v, "[Cb; 3]", [Cb(5), Cb(6), Cb(7)], 3, &[8, 9]);
    both(&mut v, "(String, Cb, Cb)", ("a\n".to_string(), Cb(6), Cb(7)), 2, &[8, 9]);
    both(&mut v, "BTreeMap<String, Cb>", BTreeMap::from([("k".to_string(), Cb(6)), ("l".to_string(), Cb(7))]), 2, &[8, 9]);
    both(&mut v, "LinkedList<Option<Cb>>", LinkedList::from([Some(Cb(6)), None, Some(Cb(7))]), 2, &[9]);
    both(&mut v, "Rec", Rec { name: "é\"".into(), a: Cb(6), next: Some(Box::new(Rec { name: "in".into(), a: Cb(7), next: None })) }, 2, &[8, 9]);
    both(&mut v, "Vec<Ev>", vec![Ev::One(Cb(6)), Ev::Unit, Ev::Two { x: Cb(7), y: "yy".into() }], 2, &[8, 9]);
    writes(&mut v, "Vec<Cb>", vec![Cb(6), Cb(8)], 2);
    writes(&mut v, " Rec ", Rec { name: "é".into(), a: Cb(6), next: Some(Box::new(Rec { name: "in".into(), a: Cb(8), next: None })) }, 2);
    writes(&mut v, "map", BTreeMap::from([(1u8, Cb(6)), (2, Cb(8))]), 2);
    plain(&mut v);
    v
}

/// `mc ops`: each operation in a process of its own.
pub fn fresh(n: usize) {
    std::panic::set_hook(Box::new(|_| {}));
    println!("{}", hex(ops()[n].go().as_bytes()));
}

fn baselines(n: usize) -> Vec<String> {
    let exe = std::env::current_exe().unwrap();
    (0..n)
        .map(|k| {
            let o = std::process::Command::new(&exe).args(["op", &k.to_string()]).output().expect("op");
            String::from_utf8_lossy(&o.stdout).trim().to_string()
        })
        .collect()
}

struct Space {
    ops: Vec<Op>,
    want: Vec<String>,
}

impl Space {
    /// Run one operation; what is wrong with its result.
    fn try_op(&self, k: usize) -> Result<(), String> {
        let got = self.ops[k].go();
        if hex(got.as_bytes()) != self.want[k] {
            return Err(format!("{}: {}; in a process of its own: {}", self.ops[k].name, show(&got), self.alone(k)));
        }
        Ok(())
    }
    fn alone(&self, k: usize) -> String {
        let h: Vec<u8> = self.want[k].split_whitespace().collect::<String>().as_bytes().chunks(2).filter_map(|c| u8::from_str_radix(std::str::from_utf8(c).ok()?, 16).ok()).collect();
        show(&String::from_utf8_lossy(&h))
    }
}

/// Run something in a thread of its own.
fn alone<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| s.spawn(f).join().unwrap())
}

fn sequences(s: &Arc<Space>, th: bool) -> Vec<Task> {
    let mut v = vec![];
    for (a, o) in s.ops.iter().enumerate() {
        let s2 = s.clone();
        v.push(task(format!("after {}: {}", a, o.name), 0, 0, move |ctx| {
            let s = &s2;
            let n = s.ops.len();
            let b = ctx.pick(n);
            // every pair of calls, in one thread, and every call after each of them
            let r = ctx.guard(&[s.ops[a].name.as_bytes(), b"; ", s.ops[b].name.as_bytes()], usize::MAX, || {
                alone(|| {
                    for c in 0..n {
                        for k in [a, b, c] {
                            if let Err(e) = s.try_op(k) {
                                return Err((c, e));
                            }
                        }
                    }
                    Ok(())
                })
            });
            for _ in 0..n {
                ctx.trace();
            }
            ctx.stats.transitions += 3 * n as u64;
            ctx.state(&[&a.to_le_bytes(), &b.to_le_bytes()]);
            ctx.sample(|| format!("{}; {}; every call", s.ops[a].name, s.ops[b].name));
            if let Ok(Err((c, e))) = r {
                ctx.violation(&format!("{a} {b} {c}"), &format!("after {}, {}, {} and so on: {e}", s.ops[a].name, s.ops[b].name, s.ops[c].name));
            } else if let Err(e) = r {
                ctx.violation("panic", &e);
            }
        }));
        let s2 = s.clone();
        v.push(task(format!("many times {}: {}", a, o.name), 0, 0, move |ctx| {
            let s = &s2;
            let mut ns: Vec<usize> = super::pumps::counts(th).into_iter().filter(|n| *n <= if th { 70_000 } else { 4200 }).collect();
            ns.dedup();
            ctx.sample(|| format!("{} up to {} times, then every call", s.ops[a].name, ns.last().unwrap()));
            let r = ctx.guard(&[s.ops[a].name.as_bytes()], usize::MAX, || {
                alone(|| {
                    let mut done = 0;
                    for n in &ns {
                        while done < *n {
                            s.try_op(a).map_err(|e| (done, e))?;
                            done += 1;
                        }
                        for c in 0..s.ops.len() {
                            s.try_op(c).map_err(|e| (done, e))?;
                        }
                    }
                    Ok(())
                })
            });
            for n in &ns {
                ctx.state(&[b"many", &a.to_le_bytes(), &n.to_le_bytes()]);
                for _ in 0..s.ops.len() {
                    ctx.trace();
                }
            }
            ctx.stats.transitions += (ns.len() * s.ops.len() + ns.last().unwrap()) as u64;
            match r {
                Ok(Err((n, e))) => ctx.violation(&format!("{a} x {n}"), &format!("after {n} times {}: {e}", s.ops[a].name)),
                Err(e) => ctx.violation("panic", &e),
                _ => {}
            }
        }));
    }
    v
}

fn among_few(o: &Op) -> bool {
    o.name.contains(" Rec ") || o.name.contains("Vec<Ev>")
}

/// Calls made by the user's code inside of other calls.
fn nested(s: &Arc<Space>, th: bool) -> Vec<Task> {
    let outer: Vec<usize> = (0..s.ops.len()).filter(|k| s.ops[*k].points > 0).collect();
    outer
        .clone()
        .into_iter()
        .map(|a| {
            let (s, outer) = (s.clone(), outer.clone());
            task(format!("inside {}: {}", a, s.ops[a].name), 0, 1, move |ctx| {
                let at = ctx.pick(s.ops[a].points);
                // one call, or one in which there is another one
                let inner = ctx.pick(s.ops.len());
                let deep = if outer.contains(&inner) && (th || among_few(&s.ops[inner])) { ctx.pick(1 + s.ops[inner].points) } else { 0 };
                let n = s.ops.len();
                let cs = if deep > 0 { n } else { 1 };
                let what = |c: usize| {
                    let d = if deep > 0 { format!(", at callback {deep} of which: {}", s.ops[c].name) } else { String::new() };
                    format!("{}, at callback {} of which: {}{d}", s.ops[a].name, at + 1, s.ops[inner].name)
                };
                ctx.sample(|| what(0));
                for c in 0..cs {
                    ctx.trace();
                    ctx.state(&[b"in", &a.to_le_bytes(), &at.to_le_bytes(), &inner.to_le_bytes(), &deep.to_le_bytes(), &c.to_le_bytes()]);
                }
                let r = ctx.guard(&[s.ops[a].name.as_bytes(), b"; ", s.ops[inner].name.as_bytes()], usize::MAX, || {
                    alone(|| {
                        for c in 0..cs {
                            let found = Arc::new(Mutex::new(None));
                            let (s2, f2) = (s.clone(), found.clone());
                            let mut seen = 0;
                            set(Some(Box::new(move || {
                                seen += 1;
                                if seen != at + 1 {
                                    return;
                                }
                                if deep > 0 {
                                    let (s3, f3) = (s2.clone(), f2.clone());
                                    let mut seen = 0;
                                    set(Some(Box::new(move || {
                                        seen += 1;
                                        if seen == deep {
                                            if let Err(e) = s3.try_op(c) {
                                                f3.lock().unwrap().get_or_insert(e);
                                            }
                                        }
                                    })));
                                }
                                let r = s2.try_op(inner);
                                set(None);
                                if let Err(e) = r {
                                    f2.lock().unwrap().get_or_insert(e);
                                }
                            })));
                            let r = s.try_op(a);
                            set(None);
                            if let Err(e) = r {
                                found.lock().unwrap().get_or_insert(e);
                            }
                            // and nothing is left behind
                            for k in [a, inner] {
                                if let Err(e) = s.try_op(k) {
                                    found.lock().unwrap().get_or_insert(format!("afterwards {e}"));
                                }
                            }
                            let f = found.lock().unwrap().take();
                            if let Some(e) = f {
                                return Some((c, e));
                            }
                        }
                        None
                    })
                });
                match r {
                    Ok(None) => {}
                    Ok(Some((c, e))) => ctx.violation(&what(c), &format!("{}: {e}", what(c))),
                    Err(e) => ctx.violation(&what(0), &format!("{}: {e}", what(0))),
                }
            })
        })
        .collect()
}

/// A baton handed from thread to thread.
#[derive(Default)]
struct Baton {
    /// whose turn it is: a thread, or nobody's (the scheduler's)
    turn: Option<usize>,
    done: Vec<bool>,
    results: Vec<Vec<String>>,
}

struct Sched {
    b: Mutex<Baton>,
    cv: Condvar,
}

impl Sched {
    fn wait(&self, me: usize) {
        let mut b = self.b.lock().unwrap();
        while b.turn != Some(me) {
            b = self.cv.wait(b).unwrap();
        }
    }
    fn give(&self, done: Option<usize>) {
        let mut b = self.b.lock().unwrap();
        if let Some(k) = done {
            b.done[k] = true;
        }
        b.turn = None;
        self.cv.notify_all();
    }
}

/// Run calls on threads of their own, one of them at a time; at every
/// callback it is chosen which one goes on.
fn schedule(ctx: &mut Ctx, s: &Arc<Space>, calls: &[usize]) {
    let n = calls.len();
    let names = calls.iter().map(|k| s.ops[*k].name.clone()).collect::<Vec<_>>().join(" | ");
    let sched = Arc::new(Sched { b: Mutex::new(Baton { turn: None, done: vec![false; n], results: vec![vec![]; n] }), cv: Condvar::new() });
    ctx.trace();
    let mut handles = vec![];
    for (me, k) in calls.iter().enumerate() {
        let (sched, s, k) = (sched.clone(), s.clone(), *k);
        handles.push(std::thread::spawn(move || {
            sched.wait(me);
            let sc = sched.clone();
            set(Some(Box::new(move || {
                sc.give(None);
                sc.wait(me);
            })));
            let r = s.try_op(k);
            set(None);
            if let Err(e) = r {
                sched.b.lock().unwrap().results[me].push(e);
            }
            sched.give(Some(me));
        }));
    }
    let mut order = vec![];
    let mut last = 0;
    // threads which wait for something held by another one
    let mut stuck = vec![false; n];
    let mut dead = false;
    loop {
        let done = sched.b.lock().unwrap().done.clone();
        let mut free: Vec<usize> = (0..n).filter(|k| !done[*k] && !stuck[*k]).collect();
        if free.is_empty() {
            if done.iter().all(|d| *d) {
                break;
            }
            dead = true;
            break;
        }
        // to go on with the same thread costs nothing
        free.sort_by_key(|k| (*k != last, *k));
        let c = if free[0] == last && !order.is_empty() { ctx.dev(free.len()) } else { ctx.pick(free.len()) };
        let t = free[c];
        order.push(t);
        last = t;
        let mut b = sched.b.lock().unwrap();
        b.turn = Some(t);
        sched.cv.notify_all();
        let (b, timeout) = sched.cv.wait_timeout_while(b, Duration::from_secs(20), |b| b.turn.is_some()).unwrap();
        if timeout.timed_out() && b.turn.is_some() {
            stuck[t] = true;
        } else {
            drop(b);
            // whatever it held may be free now
            for k in stuck.iter_mut() {
                *k = false;
            }
        }
    }
    ctx.stats.transitions += order.len() as u64;
    ctx.state(&[names.as_bytes(), &order.iter().map(|t| *t as u8).collect::<Vec<_>>()]);
    ctx.sample(|| format!("{names} in the order {order:?}"));
    let key = format!("{calls:?} {order:?}");
    if dead {
        ctx.violation(&key, &format!("{names} in the order {order:?}: none of them goes on"));
        return;
    }
    for h in handles {
        let _ = h.join();
    }
    let r = sched.b.lock().unwrap().results.concat();
    if let Some(e) = r.first() {
        ctx.violation(&key, &format!("{names} in the order {order:?}: {e}"));
    }
}

fn threads(s: &Arc<Space>, th: bool) -> Vec<Task> {
    let outer: Vec<usize> = (0..s.ops.len()).filter(|k| s.ops[*k].points > 0).collect();
    let few: Vec<usize> = outer.iter().copied().filter(|k| s.ops[*k].points == 2 && (th || among_few(&s.ops[*k]))).collect();
    let mut v = vec![];
    for (i, a) in outer.iter().enumerate() {
        let (s2, rest, a) = (s.clone(), outer[i..].to_vec(), *a);
        v.push(task(format!("beside {}: {}", a, s.ops[a].name), if th { 9 } else { 3 }, 1, move |ctx| {
            let b = rest[ctx.pick(rest.len())];
            schedule(ctx, &s2, &[a, b]);
        }));
    }
    for (i, a) in few.iter().enumerate() {
        let (s2, rest, a) = (s.clone(), few[i..].to_vec(), *a);
        v.push(task(format!("three beside {}: {}", a, s.ops[a].name), if th { 2 } else { 1 }, 1, move |ctx| {
            let b = ctx.pick(rest.len());
            let c = b + ctx.pick(rest.len() - b);
            schedule(ctx, &s2, &[a, rest[b], rest[c]]);
        }));
    }
    v
}

pub fn c24(th: bool) -> Plan {
    let ops = ops();
    let want = baselines(ops.len());
    let n = ops.len();
    let s = Arc::new(Space { ops, want });
    let mut tasks = sequences(&s, th);
    tasks.extend(nested(&s, th));
    tasks.extend(threads(&s, th));
    Plan::new(
        "every call of a history, nest or interleaving has to give the result which it gives as the only call of a process of its own; threads are run one at a time, handing over where the crate calls code of the user; a state is a history (its first two calls), a nest of calls, or an interleaving",
        format!(
            "{n} calls (writing and reading in four formats; succeeding, failing at several places, panicking in the user's code while reading or writing): all sequences of 3 in one thread; each repeated up to {} times with every call after each of the counts; each inside of each callback of each call which has some, two deep{}; all interleavings with up to {} preemptions of two calls on two threads, and with up to {} of three on three",
            if th { 70_000 } else { 4200 },
            if th { "" } else { " for two types" },
            if th { 9 } else { 3 },
            if th { 2 } else { 1 },
        ),
        tasks,
    )
}

//! usize, whose range depends on the machine, against what it has to be.

use crate::docs::*;
use crate::engine::Ctx;
use crate::{task, Task};
use nanoserde::*;

const MAX: u64 = usize::MAX as u64;

fn numbers() -> Vec<u64> {
    let mut v = vec![0, 1, 255, 256];
    for k in [16, 31, 32, 33, 53, 63] {
        for n in [(1u64 << k) - 1, 1 << k, (1 << k) + 1] {
            v.push(n);
        }
    }
    v.extend([u64::MAX - 1, u64::MAX]);
    v
}

fn check(what: &str, n: u64, r: Result<Vec<usize>, String>) -> String {
    match r {
        Ok(v) if v.iter().all(|w| *w as u64 == n) && n <= MAX => format!("{what} {n}"),
        Err(_) if n > MAX => format!("{what} {n} not in range"),
        r => format!("WRONG: {what} {n} is read as {r:?}"),
    }
}

fn read(c: &mut Ctx) -> String {
    let all = numbers();
    let n = all[c.pick(all.len())];
    let b = n.to_le_bytes();
    match c.pick(6) {
        0 => check("binary", n, usize::deserialize_bin(&b).map(|v| vec![v]).map_err(|e| e.to_string())),
        1 => check("two in binary", n, <(usize, [usize; 1])>::deserialize_bin(&[b, b].concat()).map(|v| vec![v.0, v.1[0]]).map_err(|e| e.to_string())),
        2 => check("JSON", n, usize::deserialize_json(&n.to_string()).map(|v| vec![v]).map_err(|e| e.to_string())),
        3 => check("a JSON array", n, Vec::<usize>::deserialize_json(&format!("[{n},{n}]")).map_err(|e| e.to_string())),
        4 => check("RON", n, usize::deserialize_ron(&n.to_string()).map(|v| vec![v]).map_err(|e| e.to_string())),
        _ => check("a RON array", n, Vec::<usize>::deserialize_ron(&format!("[{n},{n}]")).map_err(|e| e.to_string())),
    }
}

fn write(c: &mut Ctx) -> String {
    let all: Vec<u64> = numbers().into_iter().filter(|n| *n <= MAX).collect();
    let n = all[c.pick(all.len())];
    let v = n as usize;
    let got = (hex(&v.serialize_bin()), v.serialize_json(), v.serialize_ron());
    let want = (hex(&n.to_le_bytes()), n.to_string(), n.to_string());
    if got == want {
        format!("{n}")
    } else {
        format!("WRONG: usize {n} is written as {got:?}")
    }
}

/// A number of items, each of which takes no byte, is decoded or rejected, but
/// never becomes another one.
fn empties(c: &mut Ctx) -> String {
    let n = [1u64 << 32, (1 << 32) + 1, (5 << 32) + 3, (1 << 63) + 2][c.pick(4)];
    if n <= MAX {
        return "takes too long".into();
    }
    let b = n.to_le_bytes();
    let r = match c.pick(4) {
        0 => Vec::<()>::deserialize_bin(&b).map(|v| v.len()),
        1 => std::collections::LinkedList::<()>::deserialize_bin(&b).map(|v| v.len()),
        2 => std::collections::BTreeSet::<()>::deserialize_bin(&b).map(|v| v.len()),
        _ => std::collections::BTreeMap::<(), ()>::deserialize_bin(&b).map(|v| v.len()),
    };
    match r {
        Err(_) => format!("{n}"),
        Ok(k) => format!("WRONG: {n} items are read as {k}"),
    }
}

pub fn tasks(_: usize) -> Vec<Task> {
    vec![task("usize read".into(), 0, read), task("usize written".into(), 0, write), task("counts of nothing".into(), 0, empties)]
}

//! Two calls at the same time on two threads, with nothing between them which
//! would order what they do to memory.

use crate::docs::TOML;
use crate::engine::Ctx;
use crate::types::*;
use crate::{task, Task};
use nanoserde::*;
use std::collections::BTreeMap;
use std::sync::Arc;

type Call = Arc<dyn Fn() -> String + Send + Sync>;

const LIST_BIN: &[u8] =
    &[3, 0, 0, 0, 0, 0, 0, 0, 2, 0, 253, 255, 4, 0, 0, 0, 0, 0, 0, 0, 195, 169, 10, 34, 3, 0, 7, 0, 0, 0, 1, 1, 0, 0];
const LIST_JSON: &str = r#"[{"C":[-3,"é\n\""]},{"D":{"x":7,"y":true}},"A"]"#;
const LIST_RON: &str = r#"[C(-3,"é\n\""),D(x:7,y:true,),A,]"#;
const MAP_BIN: &[u8] = &[2, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 107, 1, 2, 1, 0, 0, 0, 0, 0, 0, 0, 108, 3, 4];
const MAP_JSON: &str = r#"{"k":[1,2],"l":[3,4]}"#;
const MAP_RON: &str = r#"{"k":(1,2),"l":(3,4),}"#;

fn calls() -> Vec<(String, Call)> {
    let mut v: Vec<(String, Call)> = vec![];
    fn add(v: &mut Vec<(String, Call)>, name: &str, f: impl Fn() -> String + Send + Sync + 'static) {
        v.push((name.into(), Arc::new(f)))
    }
    let e = || vec![E::C(-3, "é\n\"".into()), E::D { x: 7, y: Some(true) }, E::A];
    let m = || -> BTreeMap<String, [u8; 2]> { [("k".to_string(), [1, 2]), ("l".to_string(), [3, 4])].into() };
    let (a, b, c) = (e(), e(), e());
    add(&mut v, "write binary", move || format!("{:?}", a.serialize_bin()));
    add(&mut v, "write JSON", move || b.serialize_json());
    add(&mut v, "write RON", move || c.serialize_ron());
    // spelt out, for nothing may have been called before
    let (a, b, c) = (LIST_BIN, LIST_JSON, LIST_RON);
    add(&mut v, "read binary", move || format!("{:?}", Vec::<E>::deserialize_bin(a)));
    add(&mut v, "read JSON", move || format!("{:?}", Vec::<E>::deserialize_json(b)));
    add(&mut v, "read RON", move || format!("{:?}", Vec::<E>::deserialize_ron(c)));
    let (a, b, c) = (m(), m(), m());
    add(&mut v, "write a map in binary", move || format!("{:?}", a.serialize_bin()));
    add(&mut v, "write a map as JSON", move || b.serialize_json());
    add(&mut v, "write a map as RON", move || c.serialize_ron());
    let (a, b, c) = (MAP_BIN, MAP_JSON, MAP_RON);
    add(&mut v, "read a map in binary", move || format!("{:?}", BTreeMap::<String, [u8; 2]>::deserialize_bin(a)));
    add(&mut v, "read a map as JSON", move || format!("{:?}", BTreeMap::<String, [u8; 2]>::deserialize_json(b)));
    add(&mut v, "read a map as RON", move || format!("{:?}", BTreeMap::<String, [u8; 2]>::deserialize_ron(c)));
    add(&mut v, "read numbers as JSON", || format!("{:?}", <(f64, i64, u8, f32)>::deserialize_json(" [ 1.5e3, -7, 255, 0.1 ] ")));
    add(&mut v, "read numbers as RON", || format!("{:?}", <(f64, i64, u8, f32)>::deserialize_ron(" ( 1.5e3, -7, /* c */ 255, 0.1, ) // d")));
    add(&mut v, "fail in binary", || format!("{:?}", Vec::<E>::deserialize_bin(&[1, 0, 0, 0, 0, 0, 0, 0, 9, 9])));
    add(&mut v, "fail in JSON", || format!("{:?}", Opts::deserialize_json("{\"a\":1,\"x\":[{\"y\":null}],\"b\":2}")));
    add(&mut v, "fail in RON", || format!("{:?}", Opts::deserialize_ron("(a:1,\n b: 2)")));
    for (k, t) in TOML.iter().enumerate() {
        add(&mut v, &format!("read TOML {k}"), move || format!("{:?}", TomlParser::parse(t)));
    }
    add(&mut v, "fail in TOML", || format!("{:?}", TomlParser::parse("a = 1\n[b\nc = 2")));
    v
}

/// One task for each pair: what is set up when it is first needed has to be
/// needed by both for the first time in the process.
/// Only the shard which is asked for is made.
pub fn tasks(shard: usize, of: usize) -> Vec<Task> {
    let all = Arc::new(calls());
    let n = all.len();
    let mut out = vec![];
    for a in 0..n {
        for b in a..n {
            if out.len() % of != shard {
                out.push(task(String::new(), 0, |_| String::new()));
                continue;
            }
            let all = all.clone();
            out.push(task(format!("{} beside {}", all[a].0, all[b].0), 0, move |_: &mut Ctx| {
                let (x, y) = (all[a].1.clone(), all[b].1.clone());
                let (x, y) = (std::thread::spawn(move || x()), std::thread::spawn(move || y()));
                let (x, y) = (x.join(), y.join());
                // only now
                let want = (all[a].1(), all[b].1());
                match (x, y) {
                    (Ok(x), Ok(y)) if (&x, &y) == (&want.0, &want.1) => format!("{x} {y}"),
                    r => format!("WRONG: {} beside {}: {r:?} in place of {want:?}", all[a].0, all[b].0),
                }
            }));
        }
    }
    out
}

#!/usr/bin/env python3
"""check.py ID TIER: generate the declarations of C16 or C17, compile them against
/repo, and run the explorer over them. check.py replay FILE: one of them again."""
import json, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import common, rust
from common import VERIF, REPO, write, env, cargo, evidence

DRIVER = """
use mc::engine::*;
#[global_allocator]
static ALLOC: CountingAlloc = CountingAlloc;
fn main() {
    std::process::exit(mc::engine::main_with(|id, th| {
        let items = vec![ITEMS].concat();
        mc::shapes::plan(id, th, items, BOUNDS)
    }))
}
"""

CARGO = """[package]
name = "{name}"
version = "0.1.0"
edition = "{edition}"
publish = false
[dependencies]
nanoserde = {{ path = "{repo}" }}
mc = {{ path = "{verif}/mc", default-features = false }}
{deps}
"""

# the crates which hold the declarations take turns
EDITIONS = ("2021", "2018", "2024")

WORKSPACE = """[workspace]
resolver = "2"
members = [{members}]
[profile.dev]
opt-level = 0
debug = 0
debug-assertions = true
overflow-checks = true
incremental = false
codegen-units = 4
[profile.dev.package.nanoserde]
opt-level = 2
[profile.dev.package.mc]
opt-level = 2
[profile.dev.build-override]
opt-level = 1
"""


def report(pid, tier, findings, start, bounds, types):
    """Violations found by the compiler."""
    d = f"{VERIF}/evidence/replays"
    os.makedirs(d, exist_ok=True)
    for k, (t, text) in enumerate(findings[:10]):
        f = f"{d}/{pid}-compile-{k}.json"
        json.dump({"property": pid, "tier": tier, "task": f"{t.key} values" if t else "", "path": "", "key": t.key if t else "", "text": text}, open(f, "w"))
        if t:
            print(f"{pid} [{t.key}] does not compile:\n{t.title or t.item()}\n{text}")
        else:
            print(text)
        print(f"VIOLATION property={pid} replay={f}")
    evidence(pid, tier, start, {
        "states": types, "transitions": types, "traces_validated_against_impl": types - len(findings),
        "rule": "every declaration is compiled with the derive macros of the tree; one which does not compile is a violation, and nothing was executed in this run",
        "bounds": bounds, "exhaustive": False,
        "samples": [x[1][:300] for x in findings[:10]],
    }, len(findings))
    return 1


def main():
    start = time.time()
    only = None
    if sys.argv[1] == "replay":
        r = json.load(open(sys.argv[2]))
        pid, tier = r["property"], r["tier"]
        only = r
    else:
        pid, tier = sys.argv[1], sys.argv[2]
    th = tier == "thorough"
    if pid == "C22":
        import features
        return features.main(tier, start, only)
    if pid == "C17":
        import shapes as src
    else:
        import attrs as src
    types = src.all_types(th)
    keys = [t.key for t in types]
    assert len(set(keys)) == len(keys), [k for k in keys if keys.count(k) > 1][:5]
    if only:
        want = [t for t in types if only["task"].startswith(t.key + " ")]
        types = sorted(want, key=lambda t: -len(t.key))[:1] or types
    pick = os.environ.get("SHAPES_ONLY")
    if pick:
        types = [t for t in types if pick in t.key]
    root = f"{VERIF}/build/{pid}-{tier}"
    n = min(32 if th else 16, max(1, len(types) // 10))
    parts = [types[i::n] for i in range(n)]
    write(f"{root}/Cargo.toml", WORKSPACE.format(members=", ".join(f'"{x}"' for x in ["driver"] + [f"g{i}" for i in range(n)])))
    spans = {}
    for i, p in enumerate(parts):
        text, sp = rust.crate_source(p)
        write(f"{root}/g{i}/Cargo.toml", CARGO.format(name=f"g{i}", edition=EDITIONS[i % 3], verif=VERIF, repo=REPO, deps=""))
        write(f"{root}/g{i}/src/lib.rs", text)
        spans[f"g{i}"] = sp
    deps = "\n".join(f'g{i} = {{ path = "../g{i}" }}' for i in range(n))
    write(f"{root}/driver/Cargo.toml", CARGO.format(name="driver", edition="2021", verif=VERIF, repo=REPO, deps=deps))
    bounds = src.bounds(th, len(types))
    d = DRIVER.replace("ITEMS", ", ".join(f"g{i}::items()" for i in range(n))).replace("BOUNDS", rust.q(bounds))
    write(f"{root}/driver/src/main.rs", d)
    lock = f"{VERIF}/gen/Cargo.lock"
    if os.path.exists(f"{root}/Cargo.lock"):
        os.remove(f"{root}/Cargo.lock")
    # the crate itself has to compile before its derives are judged
    code, ms, err = cargo(["build", "-p", "nanoserde"], root, 300)
    if code != 0:
        print(err, file=sys.stderr)
        print("the crate does not build", file=sys.stderr)
        return 2
    code, ms, err = cargo(["build", "--keep-going"], root, 3600 if th else 700)
    findings = []
    if code is None:
        return report(pid, tier, [(None, f"{pid}: compiling the declarations does not terminate")], start, bounds, len(types))
    if code != 0:
        seen = set()
        other = []
        for m in ms:
            msg = m["message"]
            if msg["level"] != "error":
                continue
            crate = m["target"]["name"]
            found = None

            def flat(sps):
                for s in sps:
                    yield s
                    if s.get("expansion"):
                        yield from flat([s["expansion"]["span"]])

            for s in flat(msg["spans"]):
                if crate in spans and s["file_name"].endswith("src/lib.rs") and crate in s["file_name"] + m["target"]["src_path"]:
                    for a, b, t in spans[crate]:
                        if a <= s["line_start"] <= b:
                            found = t
            if found is not None:
                if found.key not in seen:
                    seen.add(found.key)
                    findings.append((found, msg["rendered"]))
            else:
                other.append(f"{crate}: {msg['rendered']}")
        if not findings:
            if other and all(o.startswith("mc: ") for o in other):
                # the explorer's own few declarations are as good as any
                return report(pid, tier, [(None, other[0])], start, bounds, len(types))
            print(err[-5000:], file=sys.stderr)
            print("".join(other)[:5000], file=sys.stderr)
            return 2
        if os.environ.get("MC_VERBOSE"):
            for t, x in findings:
                print(t.key, "::", x.split("\n")[0])
        return report(pid, tier, findings, start, bounds, len(types))
    print(f"{len(types)} declarations compiled after {time.time() - start:.0f}s", file=sys.stderr)
    exe = f"{root}/target/debug/driver"
    if only:
        return subprocess.call([exe, "replay", sys.argv[2]], env=env())
    code = subprocess.call([exe, "run", pid, tier], env=env())
    if code not in (0, 1):
        return 2
    return code


if __name__ == "__main__":
    sys.exit(main())

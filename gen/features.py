"""C22: build every feature set, and compare what the probes print."""
import itertools, json, os, subprocess, sys, threading, time

import common
from common import VERIF, REPO, write, env, cargo, evidence

FEATURES = ["binary", "json", "ron", "toml", "std"]
HERE = os.path.dirname(os.path.abspath(__file__))

CARGO = """[package]
name = "{name}"
version = "0.1.0"
edition = "2021"
publish = false
[lib]
path = "lib.rs"
{kind}
[features]
binary = ["nanoserde/binary"]
json = ["nanoserde/json"]
ron = ["nanoserde/ron"]
toml = ["nanoserde/toml"]
std = ["nanoserde/std"]
[dependencies]
nanoserde = {{ path = "{repo}", default-features = false }}
"""

WORKSPACE = """[workspace]
resolver = "2"
members = ["probe", "nostd"]
[profile.dev]
opt-level = 1
debug = 0
debug-assertions = true
overflow-checks = true
incremental = false
panic = "unwind"
[profile.dev.package.nanoserde]
opt-level = 2
[profile.dev.build-override]
opt-level = 0
[profile.release]
opt-level = 0
debug = 0
panic = "abort"
incremental = false
"""


def label(c):
    return "+".join(c) or "nothing"


class Result:
    def __init__(self):
        self.built = self.error = self.nostd = None
        self.topics = {}
        self.end = False


def setup(root):
    write(f"{root}/Cargo.toml", WORKSPACE)
    for name, main in (("probe", "main.rs"), ("nostd", "nostd.rs")):
        kind = 'crate-type = ["staticlib"]' if name == "nostd" else ""
        text = CARGO.format(name=name, repo=REPO, kind=kind)
        if name == "probe":
            text = text.replace("[lib]\npath = \"lib.rs\"\n", "[[bin]]\nname = \"probe\"\npath = \"main.rs\"\n")
        write(f"{root}/{name}/Cargo.toml", text)
        write(f"{root}/{name}/{'main' if name == 'probe' else 'lib'}.rs", open(f"{HERE}/probe/{main}").read())
        write(f"{root}/{name}/types.rs", open(f"{HERE}/probe/types.rs").read())
    if os.path.exists(f"{root}/Cargo.lock"):
        os.remove(f"{root}/Cargo.lock")


def rendered(ms, err):
    text = "".join(m["message"]["rendered"] for m in ms if m["message"]["level"] == "error")
    return text or err[-3000:]


def probe(exe, args, timeout):
    """Run a probe in a process of its own; the lines it printed and how it ended."""
    p = subprocess.Popen([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return out, p.returncode, err
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, err = p.communicate()
        return out, None, err


def examine(root, worker, c, tier, r):
    target = f"{root}/target-{worker}"
    f = ["--no-default-features", "--features", ",".join(c), "--target-dir", target]
    code, ms, err = cargo(["build", "-p", "probe"] + f, root, 600)
    if code != 0:
        r.built, r.error = False, rendered(ms, err)
        return
    r.built = True
    exe = f"{root}/probe-{label(c)}"
    os.replace(f"{target}/debug/probe", exe)
    if "std" not in c:
        code, ms, err = cargo(["build", "--release", "-p", "nostd"] + f, root, 600)
        r.nostd = code == 0
        if code != 0:
            r.error = rendered(ms, err)
    out, code, err = probe(exe, [tier], 800 if tier == "thorough" else 400)
    for l in out.splitlines():
        x = l.split("\t")
        if len(x) == 3:
            r.topics[x[0]] = (int(x[1]), x[2])
    r.end = code == 0 and out.endswith("end\n")


def first_difference(root, a, b, topic, tier):
    outs = []
    for c in (a, b):
        out, code, _ = probe(f"{root}/probe-{label(c)}", [tier, topic], 400)
        outs.append(out.splitlines())
    for x, y in itertools.zip_longest(*outs):
        if x != y:
            return f"  with {label(a)}: {x}\n  with {label(b)}: {y}"
    return "  (not reproduced case by case)"


def topics_of(c):
    """The topics a configuration has to have."""
    t = []
    names = {"binary": "binary", "json": "JSON", "ron": "RON", "toml": "TOML"}
    kinds = {"binary": ["values", "input"], "json": ["values", "sequences", "documents", "proxies"], "ron": ["values", "sequences", "documents"], "toml": ["sequences", "documents", "strings"]}
    for f in FEATURES[:4]:
        if f in c:
            t += [f"{names[f]} {k}" for k in kinds[f]]
            if "std" in c and f != "toml":
                t.append(f"{names[f]} of std")
    return t


def main(tier, start, only):
    root = f"{VERIF}/build/C22-{tier}"
    setup(root)
    # the crate as it is by default has to compile before its features are judged
    code, ms, err = cargo(["build", "-p", "probe", "--features", ",".join(FEATURES), "--target-dir", f"{root}/target-0"], root, 600)
    configs = [tuple(c) for n in range(len(FEATURES), -1, -1) for c in itertools.combinations(FEATURES, n)]
    if code != 0:
        d = f"{root}/plain"
        write(f"{d}/Cargo.toml", f'[package]\nname = "plain"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\nnanoserde = {{ path = "{REPO}" }}\n')
        write(f"{d}/src/lib.rs", "")
        if cargo(["build"], d, 300)[0] != 0:
            print(err, file=sys.stderr)
            print("the crate does not build", file=sys.stderr)
            return 2
    if only and only.get("configs"):
        configs = [c for c in configs if label(c) in only["configs"]]
    results = {c: Result() for c in configs}
    todo = list(configs)
    lock = threading.Lock()

    def work(k):
        while True:
            with lock:
                if not todo:
                    return
                c = todo.pop(0)
            examine(root, k, c, tier, results[c])

    threads = [threading.Thread(target=work, args=(k,)) for k in range(8)]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    findings = []
    for c, r in results.items():
        if not r.built:
            findings.append(([label(c)], f"with the features {label(c)} it does not compile:\n{r.error}"))
        elif r.nostd is False:
            findings.append(([label(c)], f"with the features {label(c)} it does not compile without std:\n{r.error}"))
    topics = sorted({t for c in configs for t in topics_of(c)})
    compared = 0
    for t in topics:
        have = [(c, results[c]) for c in configs if results[c].built and t in topics_of(c)]
        if not have:
            continue
        compared += len(have)
        base, r0 = have[0]
        for c, r in have[1:]:
            if r.topics.get(t) != r0.topics.get(t):
                text = first_difference(root, base, c, t, tier)
                findings.append(([label(base), label(c)], f"{t} differ between {label(base)} and {label(c)}:\n{text}"))
                break
    states = sum(n for r in results.values() for n, _ in r.topics.values())
    samples = [f"{label(c)}: {t} x {n} = {h}" for c, r in results.items() for t, (n, h) in r.topics.items()][:12]
    if not only:
        evidence("C22", tier, start, {
            "states": states,
            "transitions": sum(len(r.topics) for r in results.values()) + sum(1 for r in results.values() if r.built) + sum(1 for r in results.values() if r.nostd),
            "traces_validated_against_impl": states,
            "rule": "every feature set is compiled, those without std also into a no_std static library; each probe runs every case of the topics its features allow, and the results of a topic (output, value, error, its text and position, panics) have to be the same in all configurations which have it",
            "bounds": f"all {len(configs)} subsets of {', '.join(FEATURES)}; " + BOUNDS[tier == "thorough"],
            "exhaustive": not findings,
            "configurations_built": sum(1 for r in results.values() if r.built),
            "no_std_libraries_built": sum(1 for r in results.values() if r.nostd),
            "topics_compared": compared,
            "probes_which_ended": sum(1 for r in results.values() if r.end),
            "samples": samples,
        }, len(findings))
    for k, (cs, text) in enumerate(findings[:10]):
        f = only and sys.argv[2] or f"{VERIF}/evidence/replays/C22-{k}.json"
        if not only:
            os.makedirs(os.path.dirname(f), exist_ok=True)
            json.dump({"property": "C22", "tier": tier, "configs": cs, "text": text}, open(f, "w"))
        print(text)
        print(f"VIOLATION property=C22 replay={f}")
    if findings:
        return 1
    print(f"C22 {tier}: held; {len(configs)} configurations, {states} cases, {compared} topics compared, {time.time() - start:.1f} s")
    return 0


BOUNDS = [
    "strings with each of 2304 characters, floats of every upper half of bits with 3 lower halves, 4 kinds of structs and 4 of enums; byte strings of up to 4 of 9 bytes as 13 types; token sequences of up to 3 (TOML 4) of ~20 tokens as 9 types; every single token edit of 9 documents per format as 8 types",
    "strings with each of 2304 characters, floats of every upper half of bits with 3 lower halves, 4 kinds of structs and 4 of enums; byte strings of up to 5 of 9 bytes as 13 types; token sequences of up to 4 (TOML 5) of ~20 tokens as 9 types; every one or two token edits of 9 documents per format as 8 types",
]

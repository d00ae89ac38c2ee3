#!/usr/bin/env python3
"""machines.py C25|C26 TIER: run the bounded space of calls of ../ub under an
interpreter which knows undefined behaviour (C25), and on other machines, a
native one, one of 32 bits and one with the bytes the other way round (C26).
machines.py replay FILE: one of its tasks again."""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from common import VERIF, env, evidence

UB = f"{VERIF}/ub"
BIG = "s390x-unknown-linux-gnu"
BARE = "wasm32-unknown-unknown"
# undefined behaviour is the matter of C25
CHEAP = "-Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmiri-disable-alignment-check"
PAIRS = 276
STRICT = "-Zmiri-symbolic-alignment-check -Zmiri-strict-provenance"


def environment(**more):
    e = env()
    for k in ("MIRIFLAGS", "MIRI_SYSROOT", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e["RUSTUP_TOOLCHAIN"] = "nightly-x86_64-unknown-linux-gnu"
    e.update(more)
    return e


def no_answer(what, text):
    print(text[-4000:], file=sys.stderr)
    print(what, file=sys.stderr)
    sys.exit(2)


def build(args, what, **more):
    p = subprocess.run(["cargo"] + args, cwd=UB, env=environment(**more), capture_output=True, text=True)
    if p.returncode:
        no_answer(f"{what} cannot be built", p.stdout + p.stderr)
    return p.stdout


class Machine:
    """How to run the program somewhere."""

    def __init__(self, name, cmd, **more):
        self.name, self.cmd, self.env = name, cmd, environment(**more)

    def start(self, args, limit):
        with tempfile.TemporaryFile("w+") as out, tempfile.TemporaryFile("w+") as err:
            p = subprocess.Popen(self.cmd + args, cwd=UB, env=self.env, stdout=out, stderr=err, stdin=subprocess.DEVNULL, start_new_session=True)
            try:
                rc = p.wait(timeout=limit)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.wait()
                rc = None
            out.seek(0)
            err.seek(0)
            return rc, out.read(), err.read()


def native():
    build(["build", "--release", "--offline", "--locked"], "the program")
    return Machine("x86_64", [f"{UB}/target/release/ub"])


def bare():
    sysroot = subprocess.run(["rustc", "--print", "sysroot"], env=environment(), capture_output=True, text=True).stdout.strip()
    vendor = f"{sysroot}/lib/rustlib/src/rust/library/vendor"
    build(["build", "--release", "--offline", "--target", BARE, "-Zbuild-std=std,panic_abort",
           "--config", "source.crates-io.replace-with='vendored'", "--config", f"source.vendored.directory='{vendor}'"],
          "the program for WebAssembly")
    return Machine("wasm32", ["node", "--stack-size=4000", f"{UB}/wasm.mjs", f"{UB}/target/{BARE}/release/ub.wasm"])


def interpreter(name, target=None, flags=""):
    more = {"MIRIFLAGS": flags}
    t = ["--target", target] if target else []
    if target:
        root = f"{UB}/target/sysroot-{target}"
        if not os.path.isdir(f"{root}/lib/rustlib/{target}"):
            os.makedirs(root, exist_ok=True)
            build(["miri", "setup"] + t, f"std for {target}", MIRI_SYSROOT=root)
        more["MIRI_SYSROOT"] = root
    # build it once, alone
    run = ["miri", "run", "--offline", "--locked", "--quiet"] + t + ["--"]
    build(run + ["run", "none", "0", "0", "1"], "the program for the interpreter", **more)
    return Machine(name, ["cargo"] + run, **more)


def parse(out):
    """Tasks which ended, what is wrong, the task in which it ended, and whether that was the end."""
    done, wrong, now, end = {}, [], None, False
    for l in out.splitlines():
        if l.startswith("TASK "):
            now = l[5:]
        elif l.startswith("DONE "):
            n, steps, distinct, digest, last = l.split(" ", 5)[1:]
            done[now] = (int(n), int(steps), int(distinct), digest, last)
        elif l.startswith("WRONG"):
            wrong.append((now, l))
        elif l == "END":
            end = True
    if end:
        now = None
    return done, wrong, now


def sweep(jobs, limit):
    """Run (machine, set, level, shard, of) for each job, eight at a time."""
    def one(j):
        m, what, level, k, n = j
        return j, m.start(["run", what, str(level), str(k), str(n)], limit)
    with concurrent.futures.ThreadPoolExecutor(8) as p:
        return list(p.map(one, jobs))


def shards(m, what, level, n):
    return [(m, what, level, k, n) for k in range(n)]


def reason(err):
    """The line which says what happened."""
    for want in (r"^error: .*(Undefined Behavior|memory leaked|Data race|deadlock).*", r"^error.*", r".*panicked at.*", r".*RuntimeError.*", r".*overflow.*"):
        for l in err.splitlines():
            if re.match(want, l):
                i = err.splitlines().index(l)
                return " / ".join(x.strip() for x in err.splitlines()[i:i + 3])
    return " / ".join(err.strip().splitlines()[-2:])


def report(pid, findings):
    """[(machine, set, level, task, what)]"""
    d = f"{VERIF}/evidence/replays"
    os.makedirs(d, exist_ok=True)
    for k, (m, what, level, t, text) in enumerate(findings[:10]):
        path = f"{d}/{pid}-{k}.json"
        with open(path, "w") as f:
            json.dump({"property": pid, "machine": m.name, "set": what, "level": level, "task": t, "violation": text}, f)
        print(f"{m.name}, {t}: {text[:1000]}")
        print(f"VIOLATION property={pid} replay={path}")


def collect(results, findings):
    """Digests by machine, set, level and task."""
    all_ = {}
    for (m, what, level, k, n), (rc, out, err) in results:
        done, wrong, now = parse(out)
        for t, d in done.items():
            all_[m.name, what, level, t] = d
        for t, w in wrong:
            findings.append((m, what, level, t, w))
        if now is not None or rc:
            if rc is None:
                findings.append((m, what, level, now, "does not end"))
            elif now is None and not done and "END" not in out:
                no_answer(f"the program does not start on {m.name}", out + err)
            else:
                findings.append((m, what, level, now or "the end of the program", reason(err + "\n" + "\n".join(l for l in out.splitlines() if "panicked" in l))))
    return all_


def c25(tier, start):
    m = interpreter("an interpreter which knows undefined behaviour", flags=STRICT)
    # what is decoded when the user's code panics is left behind in the array
    lax = Machine(m.name + " (without leaks)", m.cmd, MIRIFLAGS=STRICT + " -Zmiri-ignore-leaks")
    level = 0 if tier == "quick" else 1
    # what two calls race for may be there only once in a process, so each pair has its own
    race = m if tier != "quick" else Machine(m.name + " (races only)", m.cmd, MIRIFLAGS=CHEAP)
    jobs = shards(race, "pair", 0, PAIRS) + shards(m, "elem", level, 40) + shards(lax, "panic", level, 40) + shards(m, "some", 0, 24)
    if tier != "quick":
        tree = Machine(m.name + " (tree borrows)", m.cmd, MIRIFLAGS="-Zmiri-tree-borrows")
        jobs += shards(tree, "elem", 0, 40) + shards(m, "all", 0, 40) + shards(m, "word", 0, 3)
    findings = []
    got = collect(sweep(jobs, 600 if tier == "quick" else 3000), findings)
    report("C25", findings)
    evidence("C25", tier, start, {
        "states": sum(d[2] for d in got.values()),
        "transitions": sum(d[1] for d in got.values()),
        "traces_validated_against_impl": sum(d[0] for d in got.values()),
        "rule": "every execution is one of the real code under Miri, which checks each access to memory (bounds, lifetime, initialisation, alignment, aliasing, races between threads, validity of values) and at the end that nothing is leaked; a state is a distinct result of a task, a transition a choice which was made",
        "bounds": "elements of 5 to 7 kinds (on the heap, over-aligned, without size but with a destructor, with invalid bit patterns, shared, large) alone and in ~22 kinds of arrays and containers of arrays; in three formats; each element failing or panicking before or after it is made, reading or writing; input cut off; all pairs of 23 calls on two threads without synchronisation; values, and bytes and documents with one edit, of ~95 types" + (" (those with many elements aside)" if tier == "quick" else "; elements also with tree borrows"),
        "exhaustive": not findings,
        "tasks": len(got),
        "samples": [f"{k[3]} x {d[0]}, the last of which gives {d[4]}"[:300] for k, d in sorted(got.items(), key=str)[:400:33]],
    }, len(findings))
    return 1 if findings else 0


def c26(tier, start):
    with concurrent.futures.ThreadPoolExecutor(3) as p:
        # they have folders of their own, but a lock in common
        here, small, other = p.submit(native), p.submit(bare), p.submit(interpreter, "s390x", BIG, CHEAP)
        here, small, other = here.result(), small.result(), other.result()
    deep = 1 if tier == "quick" else 2
    shallow = 0
    jobs = shards(other, "all", shallow, 40) + shards(other, "word", 0, 3) + shards(other, "elem", 0, 8)
    if tier != "quick":
        jobs += shards(other, "elem", 1, 40)
    for m in (small, here):
        jobs += shards(m, "all", deep, 32) + shards(m, "all", shallow, 1) + shards(m, "word", 0, 1) + shards(m, "elem", 1, 4) + shards(m, "elem", 0, 1)
    findings = []
    got = collect(sweep(jobs, 600 if tier == "quick" else 3000), findings)
    compared = 0
    for (name, what, level, t), d in sorted(got.items()):
        m = {"wasm32": small, "s390x": other}.get(name)
        # what is expected of usize depends on its width
        if m is None or what == "word":
            continue
        want = got.get((here.name, what, level, t))
        if want is None:
            findings.append((here, what, level, t, "does not end"))
            continue
        compared += d[0]
        if want[:4] != d[:4]:
            findings.append((m, what, level, t, "differs"))
    # an interpreter takes its time to say where
    findings.sort(key=lambda f: f[0] is not small)
    for k, (m, what, level, t, text) in enumerate(findings[:3]):
        if text == "differs":
            findings[k] = (m, what, level, t, difference(here, m, what, level, t))
    report("C26", findings)
    evidence("C26", tier, start, {
        "states": sum(d[2] for k, d in got.items() if k[0] == here.name),
        "transitions": sum(d[1] for d in got.values()),
        "traces_validated_against_impl": compared,
        "rule": "every execution is run by the real code compiled for each machine, and its result (output, value, acceptance, position of an error in a text) has to be the same as on x86_64; a state is a distinct result of a task there, a transition a choice which was made; usize is compared with the range it has on the machine",
        "bounds": "wasm32 (32 bits, run by node): values of ~100 types, their encodings with every byte replaced by 7 others or cut off anywhere, every count replaced by up to 16 which are too large, JSON, RON and TOML documents with each character replaced by 23 others or cut off anywhere, numerals at the ends of every range, 160 kinds of arrays with a failing element; s390x (64 bits, big endian, run by Miri): the same with 2 bytes, 4 counts and 6 characters, and the arrays",
        "exhaustive": not findings,
        "executions_on_each_machine": {n: sum(d[0] for k, d in got.items() if k[0] == n) for n in (here.name, small.name, other.name)},
        "samples": [f"{k[0]}: {k[3]} x {d[0]}, the last of which gives {d[4]}"[:300] for k, d in sorted(got.items(), key=str)[:1600:130]],
    }, len(findings))
    return 1 if findings else 0


def difference(a, b, what, level, t):
    """The first execution of a task which differs."""
    x, y = (m.start(["list", what, str(level), t], 60)[1].splitlines() for m in (a, b))
    for p, q in zip(x, y):
        if p != q:
            return f"execution {p.split(' ')[0]} gives {p.split(' ', 1)[1]} on {a.name}, but {q.split(' ', 1)[1]} on {b.name}"
    return f"{len(x)} executions on {a.name}, {len(y)} on {b.name}"


def replay(path):
    r = json.load(open(path))
    if r["property"] == "C25":
        flags = STRICT + (" -Zmiri-ignore-leaks" if r["set"] == "panic" else "")
        ms = [interpreter("miri", flags=flags)]
    else:
        ms = [native(), bare() if r["machine"] == "wasm32" else interpreter("s390x", BIG, CHEAP)]
    outs = []
    for m in ms:
        rc, out, err = m.start(["list", r["set"], str(r["level"]), r["task"]], 3000)
        outs.append(out)
        if rc != 0:
            print(out[-500:], err[-3000:])
            print(f"VIOLATION property={r['property']} replay={path}")
            return 1
    bad = [l for l in outs[-1].splitlines() if '"WRONG' in l]
    if len(outs) == 2 and r["set"] != "word":
        bad += [f"{p} | {q}" for p, q in zip(outs[0].splitlines(), outs[1].splitlines()) if p != q]
    for l in bad[:5]:
        print(l)
    if bad:
        print(f"VIOLATION property={r['property']} replay={path}")
    return 1 if bad else 0


def main():
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    pid, tier = sys.argv[1:3]
    return {"C25": c25, "C26": c26}[pid](tier, time.time())


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""Plant bugs: python3 tools/plant.py SPEC.py [id…]

SPEC.py defines BUGS, a list of dicts with id, property, edits (file, old, new),
demo (the main.rs of a program which fails once the bug is in), needs and breaks.
Each one is written to seeded/<id>/ after it has been confirmed in a scratch copy:
it builds, the stable tests pass, the demo passes without it and fails with it.
Then the check of its property is run from a copy against a copy of /repo with the patch applied.
Not part of any check."""
import json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = "/tmp/plant"
DEMO = '''#!/bin/bash
# Builds and runs main.rs against the nanoserde crate in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
dir=$(mktemp -d)
trap 'rm -rf "$dir"' EXIT
mkdir "$dir/src"
cp "$here/main.rs" "$dir/src/main.rs"
cat >"$dir/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
nanoserde = { path = "$PWD" }
[workspace]
END
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_TARGET_DIR="$dir/target"
cargo build -q --offline --manifest-path "$dir/Cargo.toml" 2>"$dir/log" || { cat "$dir/log"; exit 3; }
( ulimit -v 8000000; timeout 100 "$dir/target/debug/demo" )
'''

def sh(cmd, cwd=None, timeout=1200):
    p = subprocess.run(cmd, shell=True, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return p.returncode, p.stdout

def stable():
    return set(json.load(open("/opt/vp/BASELINE.json"))["stable"] if "stable" in json.load(open("/opt/vp/BASELINE.json")) else [])

def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    want = set(sys.argv[2:])
    repo = SCRATCH + "/repo"
    os.makedirs(SCRATCH, exist_ok=True)
    if os.path.exists(repo): shutil.rmtree(repo)
    sh(f"cp -a /repo {repo}")
    for b in spec["BUGS"]:
        if want and b["id"] not in want: continue
        sh("git checkout -q -- .", repo)
        d = f"{VERIF}/seeded/{b['id']}"
        ok = True
        for f, old, new in b["edits"]:
            p = f"{repo}/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                n = b.get("nth", {}).get(old)
                if n is None:
                    print(b["id"], "edit matches", s.count(old), "times:", old[:60]); ok = False; break
                parts = s.split(old)
                s = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
            else:
                s = s.replace(old, new)
            open(p, "w").write(s)
        if not ok: continue
        os.makedirs(d, exist_ok=True)
        _, diff = sh("git diff", repo)
        open(d + "/patch.diff", "w").write(diff)
        demo = DEMO
        if "features" in b:
            demo = demo.replace('{ path = "$PWD" }', '{ path = "$PWD", default-features = false, features = [%s] }' % ", ".join(f'"{x}"' for x in b["features"]))
        if b.get("compiles"):
            # that it compiles is what it shows
            demo = demo.replace("exit 3", "exit 1")
        if "miri" in b:
            # on the machine named, under an interpreter
            t = b["miri"]
            demo = demo[:demo.index("export RUSTUP")] + f'''export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_TARGET_DIR="$dir/target" CARGO_NET_OFFLINE=true
target="{t}"
if [ -n "$target" ]; then
    mkdir "$dir/sysroot"
    MIRI_SYSROOT="$dir/sysroot" cargo miri setup --target "$target" >"$dir/log" 2>&1 || {{ cat "$dir/log"; exit 3; }}
    export MIRI_SYSROOT="$dir/sysroot"
fi
cd "$dir" || exit 3
timeout 200 cargo miri run -q --offline ${{target:+--target "$target"}}
'''
        if b.get("nostd"):
            demo = demo.replace("src/main.rs", "src/lib.rs").replace("[dependencies]", '[lib]\ncrate-type = ["staticlib"]\n[profile.dev]\npanic = "abort"\n[dependencies]')
            demo = "\n".join(l for l in demo.splitlines() if "ulimit" not in l) + "\n"
        open(d + "/demo.sh", "w").write(demo); os.chmod(d + "/demo.sh", 0o755)
        open(d + "/main.rs", "w").write(b["demo"])
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        rc, out = sh(f"{d}/demo.sh", "/repo")
        if rc != 0: print(b["id"], "DEMO FAILS ON CLEAN TREE", rc, out[-1500:]); shutil.rmtree(d); continue
        rc, out = sh(f"{d}/demo.sh", repo)
        if rc in (0, 3): print(b["id"], "DEMO DOES NOT FAIL WITH THE BUG", rc, out[-1500:]); shutil.rmtree(d); continue
        rc, out = sh(". /opt/vp/env.sh; cd " + repo + '; cargo test --workspace --offline --no-fail-fast 2>&1; cargo test --workspace --offline --no-fail-fast "${NOSTD[@]}" 2>&1', repo)
        failed = re.findall(r"^test (.*) \.\.\. FAILED|^error.*", out, re.M)
        if failed: print(b["id"], "TESTS FAIL", failed[:5], re.findall(r"^error.*", out, re.M)[:3]); shutil.rmtree(d); continue
        if os.environ.get("NOCHECK"): print(b["id"], "confirmed"); continue
        check(b["id"], b["property"])
    shutil.rmtree(repo)

def copies():
    """A copy of the checks which looks at a copy of /repo."""
    v, r = SCRATCH + "/v", SCRATCH + "/r"
    if not os.path.exists(r): sh(f"git clone -q /repo {r}")
    sh("git fetch -q && git reset -q --hard origin/HEAD", r)
    sh(f"mkdir -p {v}/mc {v}/gen {v}/evidence; cp -a {VERIF}/run.sh {VERIF}/known_findings.txt {v}/; rm -rf {v}/mc/src; cp -a {VERIF}/mc/src {VERIF}/mc/Cargo.* {v}/mc/; mkdir -p {v}/ub; rm -rf {v}/ub/src; cp -a {VERIF}/ub/src {VERIF}/ub/Cargo.* {VERIF}/ub/wasm.mjs {v}/ub/; cp -a {VERIF}/gen/. {v}/gen/")
    sh(f"sed -i 's#\"/repo\"#\"{r}\"#' {v}/mc/Cargo.toml {v}/ub/Cargo.toml {v}/gen/common.py")
    return v, r

def check(id, prop):
    d = f"{VERIF}/seeded/{id}"
    v, r = copies()
    rc, out = sh(f"git -C {r} apply {d}/patch.diff")
    if rc: print(id, "does not apply", out); return
    t = time.time()
    rc, out = sh(f"{v}/run.sh {prop} quick", v)
    v = [l for l in out.splitlines() if l.startswith("VIOLATION")]
    print(f"{id} [{prop}] {'CAUGHT' if rc == 1 and v else 'MISSED'} rc={rc} {len(v)} {time.time()-t:.0f}s", (v[0][:120] if v else out[-300:]), flush=True)

if __name__ == "__main__":
    if sys.argv[1] == "check":
        for id in sys.argv[2:] or sorted(os.listdir(VERIF + "/seeded")):
            check(id, json.load(open(f"{VERIF}/seeded/{id}/meta.json"))["property"])
    else:
        main()

"""Files, cargo and evidence."""
import json, os, subprocess, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path, "w") as f:
        f.write(text)


def env():
    e = dict(os.environ)
    e.update(VERIF_DIR=VERIF, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    return e


def cargo(args, cwd, timeout):
    """Run cargo; returns the exit code (None on a timeout) and the diagnostics."""
    p = subprocess.Popen(["cargo"] + args + ["--offline", "--message-format=json"], cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         text=True, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, err = p.communicate()
        return None, [], err
    ms = []
    for l in out.splitlines():
        if l.startswith("{"):
            m = json.loads(l)
            if m.get("reason") == "compiler-message":
                ms.append(m)
    return p.returncode, ms, err


def evidence(pid, tier, start, coverage, violations):
    """A run whose findings come from the compiler or the probes."""
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    seed = os.environ.get("VERIF_SEED", "1")
    ev = {
        "property": pid, "tier": tier, "seed": int(seed) if seed.isdigit() else 1, "level": "model_checking",
        "coverage": coverage,
        "assumptions": ["rustc, std and the sandbox work"],
        "wall_s": round(time.time() - start, 3), "violations": violations,
    }
    with open(f"{VERIF}/evidence/{pid}.json", "w") as f:
        json.dump(ev, f)
        f.write("\n")

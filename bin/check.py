#!/usr/bin/env python3
"""Runs one check: check.py PROPERTY [quick|thorough].

Derives the workspace from /repo's working tree, builds the monitors against it, runs them, and maps the outcome:
0 held, 1 violated (a VIOLATION line was printed), 2 no verdict (build or harness error, too little observed).
"""
import fcntl, glob, json, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, ".build"))
sys.path.insert(0, os.path.join(ROOT, "bin"))
from props import PROPS, SCALE  # noqa: E402


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def base_env():
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
        env.pop(k, None)
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    env["VERIF_ROOT"] = ROOT
    return env


def build(crate, kind="plain"):
    """Builds a harness crate and returns the path of its binary."""
    home = next(h for h in ("harness", "harness-t") if os.path.isdir(os.path.join(ROOT, h, crate)))
    env = base_env()
    args = ["cargo", "build", "--offline", "-q", "-p", crate]
    if kind == "plain":
        env["RUSTUP_TOOLCHAIN"] = "1.85"
        env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target")
        env["RUSTFLAGS"] = "-Awarnings"
        out = os.path.join(BUILD, "target", "debug", crate)
    elif kind == "tsan":
        env["RUSTUP_TOOLCHAIN"] = "nightly"
        env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "tsan")
        env["RUSTFLAGS"] = "-Zsanitizer=thread --cfg vm_tsan -Awarnings"
        args += ["-Zbuild-std", "--target", "x86_64-unknown-linux-gnu", "--profile", "san"]
        out = os.path.join(BUILD, "tsan", "x86_64-unknown-linux-gnu", "san", crate)
    elif kind == "asan":
        env["RUSTUP_TOOLCHAIN"] = "nightly"
        env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "asan")
        env["RUSTFLAGS"] = "-Zsanitizer=address -Awarnings"
        args += ["--target", "x86_64-unknown-linux-gnu", "--profile", "san"]
        out = os.path.join(BUILD, "asan", "x86_64-unknown-linux-gnu", "san", crate)
    else:
        raise SystemExit(f"unknown build kind {kind}")
    t = time.time()
    r = subprocess.run(args, cwd=os.path.join(ROOT, home), env=env, stdin=subprocess.DEVNULL)
    if r.returncode != 0 or not os.path.exists(out):
        log(f"build of {crate} ({kind}) failed")
        sys.exit(2)
    log(f"built {crate} ({kind}) in {time.time() - t:.1f}s")
    return out


def run(argv, env, limit):
    """Runs a monitor in its own process group under a watchdog; None when the watchdog fired."""
    import signal
    p = subprocess.Popen(argv, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         start_new_session=True)
    try:
        out, err = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        return None, out.decode(errors="replace"), err.decode(errors="replace")
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    return p.returncode, out.decode(errors="replace"), err.decode(errors="replace")


def replay_file(prop, name, body):
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{prop}.{name}.txt")
    with open(p, "w") as f:
        f.write(body)
    return p


def judge(prop, part, rc, out, err, limit):
    """Prints the part's verdict; returns 0, 1 or 2."""
    sys.stdout.write(out)
    sys.stdout.flush()
    tail = err[-4000:]
    if rc == 0 and "WARNING: ThreadSanitizer" not in err and "ERROR: AddressSanitizer" not in err:
        return 0
    m = re.search(r"(WARNING: ThreadSanitizer|ERROR: AddressSanitizer|ERROR: ThreadSanitizer)[\s\S]{0,6000}", err)
    if m and "FATAL: ThreadSanitizer" not in err:
        p = replay_file(prop, f"{part}.sanitizer", m.group(0))
        print(f"VIOLATION property={prop} replay={p}")
        print("  " + "\n  ".join(m.group(0).splitlines()[:30]))
        return 1
    if rc == 1 and f"VIOLATION property={prop}" in out:
        return 1
    if rc is None or rc in (2, 101):
        # On the unchanged tree this does not happen: the code under observation no longer gets its work done.
        what = f"did not end within {limit}s" if rc is None else "twice observed too little to judge, or ended early"
        p = replay_file(prop, f"{part}.starved", what + "\n" + tail)
        print(f"VIOLATION property={prop} replay={p}")
        print(f"  the monitor {what}: " + " | ".join([l for l in err.splitlines() if l.strip()][-6:])[:1500])
        return 1
    elif rc < 0:
        # The process died of a signal: abort, stack overflow, segmentation fault.  The monitor says what it was doing.
        last = [l for l in err.splitlines() if l.strip()][-12:]
        p = replay_file(prop, f"{part}.crash", f"signal {-rc}\n" + tail)
        print(f"VIOLATION property={prop} replay={p}")
        print(f"  the process under observation died of signal {-rc}: " + " | ".join(last)[:1500])
        return 1
    log(f"{part}: exit {rc}\n{tail}")
    return 2


def merge(prop, tier, parts, t0):
    """Joins the evidence of several parts into one file."""
    d = os.path.join(ROOT, "evidence")
    path = os.path.join(d, f"{prop}.json")
    if parts == [""]:
        return
    evs = []
    for part in parts:
        p = os.path.join(d, f"{prop}.{part}.json") if part else path
        try:
            with open(p) as f:
                evs.append((part or "main", json.load(f)))
        except (OSError, ValueError):
            pass
    if not evs:
        return
    cov = {
        "evaluations": sum(e["coverage"]["evaluations"] for _, e in evs),
        "distinct_nontrivial": sum(e["coverage"]["distinct_nontrivial"] for _, e in evs),
        "rule": " || ".join(f"[{n}] {e['coverage']['rule']}" for n, e in evs),
        "samples": [s for _, e in evs for s in e["coverage"]["samples"][:2]],
        "observed": {n: e["coverage"].get("observed", {}) for n, e in evs},
    }
    out = dict(evs[0][1])
    out["coverage"] = cov
    out["assumptions"] = sorted({a for _, e in evs for a in e["assumptions"]})
    out["violations"] = sum(e["violations"] for _, e in evs)
    out["wall_s"] = time.time() - t0
    with open(path, "w") as f:
        json.dump(out, f, indent=1)


def steps_of(spec, tier):
    return spec["parts"](tier) if callable(spec.get("parts")) else [dict(crate=spec["crate"])]


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in PROPS:
        log("usage: check.py PROPERTY [quick|thorough]; known: " + " ".join(PROPS))
        sys.exit(2)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    spec = PROPS[prop]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    for old in glob.glob(os.path.join(d, f"{prop}.*")):
        os.unlink(old)
    env = base_env()
    env["VERIF_TIER"] = tier
    env.setdefault("VERIF_SEED", "1")
    steps = steps_of(spec, tier)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if subprocess.run([sys.executable, os.path.join(ROOT, "bin", "gen_ws.py")]).returncode != 0:
            sys.exit(2)
        for s in steps:
            if "crate" in s:
                s["exe"] = build(s["crate"], s.get("kind", "plain"))
    worst = 0
    names = []
    for s in steps:
        part = s.get("part", "")
        names.append(part)
        e = dict(env)
        e["VM_SCALE"] = str(SCALE.get((prop, part), SCALE.get(prop, 1)))
        e.update(s.get("env", {}))
        if part:
            e["VM_PART"] = part
        if s.get("kind") == "tsan":
            supp = os.path.join(ROOT, "bin", "tsan.supp")
            e["TSAN_OPTIONS"] = f"halt_on_error=1 exitcode=66 suppressions={supp} second_deadlock_stack=1"
        if "argv" in s:
            argv = s["argv"]
        else:
            argv = [s["exe"], s.get("cmd", prop)]
        limit = s.get("limit", 400 if tier == "quick" else 7200)
        rc, out, err = run(argv, e, limit)
        if rc in (2, 101) or rc == -9:
            # Too little observed, or an accident: once more, with more time.
            log(f"{part or 'main'}: exit {rc}, trying again\n" + err[-2000:])
            e["VM_BUDGET_S"] = "90" if tier == "quick" else "900"
            rc, out, err = run(argv, e, limit)
        if rc != 0 or os.environ.get("VM_DEBUG"):
            sys.stderr.write(err[-6000:])
        v = judge(prop, part or "main", rc, out, err, limit)
        if v == 1:
            worst = 1
        elif v == 2 and worst == 0:
            worst = 2
    merge(prop, tier, names, t0)
    sys.exit(worst)


if __name__ == "__main__":
    main()

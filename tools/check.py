#!/usr/bin/env python3
"""Decide one property:  check.py ID [quick|thorough]

Builds the executor, the harness crate (to LLVM IR, from /repo's current tree) and
its native twin, explores every entry of the property symbolically, replays every
counterexample natively, compares sample paths with native runs, writes
evidence/ID.json and reports.  Exit 0: held.  Exit 1: VIOLATION printed.
Exit 2: no answer (build failure, incomplete exploration, disagreement)."""
import json, os, resource, subprocess, sys, threading, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import prepare
from checks import CHECKS

ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS"):
    ENV.pop(k, None)
LIMIT = {"quick": 840, "thorough": 7200}


def sh(cmd, cwd, log):
    with open(log, "w") as f:
        return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=f, stderr=subprocess.STDOUT).returncode


def die(msg, log=None):
    print("NO ANSWER: " + msg)
    if log and os.path.exists(log):
        sys.stdout.write(open(log, errors="replace").read()[-4000:])
    sys.exit(2)


def build(crate):
    """-> (path of the IR, thread building the native twin)"""
    prepare.main()
    logs = os.path.join(VERIF, "build/logs")
    os.makedirs(logs, exist_ok=True)
    hc = os.path.join(VERIF, "harness", crate)
    rc = {}

    def go(name, cmd, cwd):
        rc[name] = sh(cmd, cwd, os.path.join(logs, "%s-%s.log" % (crate, name)))

    ll_cmd = ["cargo", "rustc", "--locked", "--release", "--lib", "--crate-type", "cdylib", "--",
              "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"]
    rp_cmd = ["cargo", "build", "--locked", "--profile", "replay", "--bin", "replay",
              "--target-dir", os.path.join(hc, "target/native")]
    ts = {
        "symex": threading.Thread(target=go, args=("symex", ["cargo", "build", "--locked", "--release"], os.path.join(VERIF, "symex"))),
        "ll": threading.Thread(target=go, args=("ll", ll_cmd, hc)),
        "replay": threading.Thread(target=go, args=("replay", rp_cmd, hc)),
    }
    # (cargo jobs creating the same directory at once get in each other's way)
    for d in ("symex/target", "harness/%s/target/native" % crate):
        os.makedirs(os.path.join(VERIF, d), exist_ok=True)
    for t in ts.values():
        t.start()
    ts["symex"].join()
    ts["ll"].join()
    for n in ("symex", "ll"):
        if rc[n] != 0:
            ts["replay"].join()
            die("building %s failed" % n, os.path.join(logs, "%s-%s.log" % (crate, n)))
    ll = os.path.join(hc, "target/release/deps/h%s.ll" % crate)

    def wait_replay():
        ts["replay"].join()
        if rc["replay"] != 0:
            die("building the native replay failed", os.path.join(logs, "%s-replay.log" % crate))
        return os.path.join(hc, "target/native/replay/replay")
    return ll, wait_replay


def native(exe, entry, inputs, tag):
    f = os.path.join(VERIF, "build/replays", tag + ".in")
    os.makedirs(os.path.dirname(f), exist_ok=True)
    with open(f, "w") as o:
        o.write("\n".join(str(v[1]) for v in inputs) + "\n")
    try:
        p = subprocess.run([exe, entry, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20,
                           preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30)))
    except subprocess.TimeoutExpired:
        return "TIMEOUT", "", f
    out = p.stdout.decode(errors="replace").strip().splitlines()
    last = out[-1] if out else ""
    if p.returncode < 0:
        return "SIGNAL", "signal %d" % -p.returncode, f
    return {0: "OK", 10: "VIOLATED", 11: "PANIC"}.get(p.returncode, "RC%d" % p.returncode), last, f


def reproduces(v, kind, text):
    m = v["msg"]
    if kind == "VIOLATED":
        return text == "VIOLATED " + m
    if kind == "PANIC":
        # the solver's path panics; the native one panics at the same place, or
        # anywhere if the symbolic path ended in abort/unreachable code
        loc = text[len("PANIC "):]
        return loc in m or not m.startswith("panic") or "panic" in m
    if kind == "TIMEOUT":
        return "livelock" in m or "deadlock" in m
    if kind == "SIGNAL":
        return not m.startswith("panic") or "stack" in m
    return False


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = CHECKS[pid]
    t0 = time.time()
    ev_path = os.path.join(VERIF, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    if os.path.exists(ev_path):
        os.remove(ev_path)
    known = {}
    kf = os.path.join(VERIF, "known-findings.json")
    if os.path.exists(kf):
        for k in json.load(open(kf))["findings"]:
            if k["property"] == pid:
                known[k["message"]] = k
    ll, wait_replay = build(cfg["crate"])
    tbuild = time.time() - t0
    ir_size = os.path.getsize(ll)
    outs, problems, seen_known = [], [], {}
    violations = []
    ents = cfg["entries"] if tier == "quick" else cfg.get("thorough", cfg["entries"])
    os.makedirs(os.path.join(VERIF, "build/out"), exist_ok=True)
    for e in ents:
        e = dict(e) if isinstance(e, dict) else {"name": e}
        name = e["name"]
        left = LIMIT[tier] - (time.time() - t0) - 20
        out = os.path.join(VERIF, "build/out", name + ".json")
        if os.path.exists(out):
            os.remove(out)
        cmd = [os.path.join(VERIF, "symex/target/release/symex"), ll, name, "--time", "%d" % max(10, left),
               "--samples", str(e.get("samples", 6)), "--threads", "8", "--out", out]
        for k in known:
            cmd += ["--known", k]
        if e.get("max_steps"):
            cmd += ["--max-steps", str(e["max_steps"])]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if not os.path.exists(out):
            problems.append("%s: the executor failed: %s" % (name, p.stdout.decode(errors="replace")[-600:]))
            continue
        d = json.load(open(out))
        d["want_covers"] = e.get("covers", [])
        outs.append(d)
        for x in d["errors"]:
            problems.append("%s: %s (%d)" % (name, x["error"], x["count"]))
        for v in d["violations"]:
            v["entry"] = name
            if v["msg"] in known:
                seen_known[v["msg"]] = v
            else:
                violations.append(v)
        if d["violations"] and tier == "quick" and not all(v["msg"] in known for v in d["violations"]):
            break
    exe = wait_replay()
    # counterexamples, replayed on machine code
    confirmed = []
    for i, v in enumerate(violations):
        kind, text, f = native(exe, v["entry"], v["inputs"], "%s-%d" % (pid, i))
        if reproduces(v, kind, text):
            rp = os.path.join(VERIF, "build/replays", "%s-%d.json" % (pid, i))
            json.dump({"property": pid, "entry": v["entry"], "what": v["msg"], "at": v["at"], "inputs": v["inputs"],
                       "trace": v["trace"], "notes": v["notes"], "native": [kind, text],
                       "replay": "%s %s %s" % (exe, v["entry"], f)}, open(rp, "w"), indent=1)
            confirmed.append((v, rp))
        else:
            problems.append("counterexample does not reproduce natively: %s: %s (native: %s %s)" % (v["entry"], v["msg"], kind, text))
    # sample paths must behave the same natively
    validated = 0
    for d in outs:
        for i, s in enumerate(d["samples"]):
            kind, text, f = native(exe, d["entry"], s["inputs"], "%s-s%d" % (pid, i))
            want = "OBS " + ",".join(str(x) for x in s["obs"])
            if kind == "OK" and text.strip() == want.strip():
                validated += 1
            elif kind == "VIOLATED" and text[len("VIOLATED "):] in known:
                pass
            else:
                problems.append("sample path differs natively: %s: %s vs %s %s" % (d["entry"], want[:300], kind, text[:300]))
    if not confirmed:
        for d in outs:
            miss = [c for c in d["want_covers"] if c not in d["covers"]]
            if miss:
                problems.append("%s: reachability markers not reached: %s" % (d["entry"], miss))
    tot = lambda k: sum(d[k] for d in outs)
    funcs = sorted({f for d in outs for f in d["functions"]})
    lines = {}
    for d in outs:
        for f, l in d["lines"].items():
            lines.setdefault(f, set()).update(l)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"),
            "transitions": tot("steps"),
            "traces_validated_against_impl": validated,
            "samples": [{"entry": d["entry"], "inputs": [x[1] for x in s["inputs"]][:80], "observed": s["obs"][:40]}
                        for d in outs for s in d["samples"][:2]][:8],
            "states_are": "paths of the compiled code explored to their end (each stands for all inputs that follow it)",
            "transitions_are": "LLVM instructions executed symbolically",
            "exhaustive": not problems and not any(d["errors"] for d in outs),
            "bounds": cfg["bounds"] if tier == "quick" else cfg.get("bounds_thorough", cfg["bounds"]),
            "entries": [{k: d[k] for k in ("entry", "complete", "paths", "pruned", "forks", "steps", "max_inputs_on_path",
                                            "max_steps_on_path", "asserts", "sym_asserts", "queries", "cached", "sat",
                                            "unsat", "solver_s", "max_query_s", "wall_s", "covers")} for d in outs],
            "solver": {"queries": tot("queries"), "answered_from_cache": tot("cached"), "sat": tot("sat"),
                       "unsat": tot("unsat"), "seconds": round(tot("solver_s"), 3), "name": "z3 (bit-vectors), C API"},
            "assertions_checked": tot("asserts"),
            "encoded": {"ir_bytes": ir_size, "module_functions": max([d["module_functions"] for d in outs] or [0]),
                        "repo_functions": funcs,
                        "repo_lines": {f: len(l) for f, l in sorted(lines.items())}},
            "known_findings_seen": sorted(seen_known),
            "problems": problems,
        },
        "assumptions": cfg.get("assumptions", []) + COMMON,
        "wall_s": round(time.time() - t0, 2), "violations": len(confirmed),
    }
    json.dump(ev, open(ev_path, "w"), indent=1)
    for m in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (pid, m))
    print("%s %s: %d paths, %d instructions, %d queries (%d sat, %d unsat, %.1f s), %d assertions, %d traces validated; build %.0f s, total %.0f s" % (
        pid, tier, tot("paths"), tot("steps"), tot("queries"), tot("sat"), tot("unsat"), tot("solver_s"), tot("asserts"), validated, tbuild, time.time() - t0))
    for p in problems:
        print("PROBLEM: " + p)
    for v, rp in confirmed:
        print("  %s: %s  [%s]" % (v["entry"], v["msg"], v["at"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    if confirmed:
        sys.exit(1)
    sys.exit(2 if problems else 0)


COMMON = [
    "single-threaded execution; other threads' steps happen only where the harness schedules them (at spin-lock boundaries, between polls and between events)",
    "async-std's network, timers and executor are the in-memory stand-ins of /verif/shims/async-std; log output is not formatted",
    "memory allocation succeeds; hash seeds are fixed",
    "symex (/verif/symex) interprets LLVM IR as LLVM defines it; rustc and the solver are trusted; sample paths are compared with native runs on every run",
]

if __name__ == "__main__":
    main()

#!/usr/bin/env python3
"""Orchestrator of the property checks.

  run.py setup                      build everything once
  run.py check P01 [tier]           run one property's check
  run.py replay FILE                re-run a saved case

A check rebuilds the harness against /repo's working tree, runs fixed-work
workers in parallel, and writes evidence/<id>.json. Exit 0: held; exit 1 with
a VIOLATION line: violated; exit 2: the check itself failed.
"""
import fcntl
import hashlib
import json
import os
import resource
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(HERE, "target")
OUT = os.path.join(HERE, "out")
BIN = os.path.join(TARGET, "release", "harness")
PROGRAMS = ("P24", "P25")  # these run the repository's programs
KNOWN = os.path.join(HERE, "known-findings.txt")
WORKERS = 8
MEM = 3 << 30
CPU_ONE = 60  # seconds of CPU time after which a single case counts as endless


class CheckError(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "src"), os.path.join(HERE, "harness"), os.path.join(HERE, "reference"),
             os.path.join(HERE, "programs")]
    files = [os.path.join(REPO, "Cargo.toml")]
    for r in roots:
        for d, dirs, fs in os.walk(r):
            dirs.sort()
            if "target" in dirs:
                dirs.remove("target")
            for f in sorted(fs):
                files.append(os.path.join(d, f))
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()


def build():
    os.makedirs(TARGET, exist_ok=True)
    os.makedirs(OUT, exist_ok=True)
    lock = open(os.path.join(TARGET, ".lock-verif"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    env = dict(os.environ)
    env.pop("RUSTFLAGS", None)
    env["RUSTC_WRAPPER"] = os.path.join(HERE, "harness", "rustc-cov.sh")
    env["CARGO_TARGET_DIR"] = TARGET
    env["CARGO_NET_OFFLINE"] = "true"
    cwd = os.path.join(HERE, "harness")
    stamp = os.path.join(TARGET, ".stamp-verif")
    want = tree_hash()
    have = open(stamp).read() if os.path.exists(stamp) else ""
    if have == want and os.path.exists(BIN):
        return
    if have:
        # do not rely on file times to notice a changed tree
        subprocess.run(["cargo", "clean", "--offline", "--release", "-p", "libyaml-safer"],
                       cwd=cwd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "--release"],
                       cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-8000:])
        raise CheckError("harness does not build against /repo")
    with open(stamp, "w") as f:
        f.write(want)


def build_programs():
    """The two programs of the repository, as they are (no coverage counters)."""
    build()
    target = os.path.join(TARGET, "programs")
    os.makedirs(target, exist_ok=True)
    lock = open(os.path.join(target, ".lock-verif"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER"):
        env.pop(k, None)
    env["CARGO_TARGET_DIR"] = target
    env["CARGO_NET_OFFLINE"] = "true"
    cwd = os.path.join(HERE, "programs")
    stamp = os.path.join(target, ".stamp-verif")
    want = tree_hash()
    bins = [os.path.join(target, "release", p) for p in ("run-parser-test-suite", "run-emitter-test-suite")]
    have = open(stamp).read() if os.path.exists(stamp) else ""
    if have == want and all(os.path.exists(b) for b in bins):
        return
    if have:
        for p in ("libyaml-safer", "programs"):
            subprocess.run(["cargo", "clean", "--offline", "--release", "-p", p],
                           cwd=cwd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "--release"],
                       cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-8000:])
        raise CheckError("the programs do not build")
    with open(stamp, "w") as f:
        f.write(want)


def limits(cpu=None):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    return f


def one(prop, case_hex, tmp, cpu=CPU_ONE):
    """Run one case alone. -> ('held'|'violated'|'crash'|'endless'|'broken', text)"""
    path = os.path.join(tmp, "one.hex")
    with open(path, "w") as f:
        f.write(case_hex)
    r = subprocess.run([BIN, "one", prop, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       text=True, errors="replace", preexec_fn=limits(cpu))
    rc = r.returncode
    if rc == 0:
        return "held", r.stdout
    if rc == 1:
        return "violated", r.stdout
    if rc == -24:
        return "endless", "more than %d s of CPU time on one case" % cpu
    if rc < 0:
        return "crash", "killed by signal %d: %s" % (-rc, r.stderr[-400:])
    return "broken", r.stdout + r.stderr


def shrink_dead(prop, case_hex, tmp, kind):
    """Shrink a case that kills its process, by bisection over chunks."""
    best = bytes.fromhex(case_hex)
    tries = 0
    t0 = time.time()
    cpu = 10 if kind == "endless" else 30
    if kind == "endless" and one(prop, best.hex(), tmp, cpu)[0] != kind:
        return best.hex()
    size = max(1, len(best) // 2)
    while size >= 1 and tries < 150 and time.time() - t0 < 60:
        i = 0
        while i < len(best) and tries < 150 and time.time() - t0 < 60:
            cand = best[:i] + best[i + size:]
            tries += 1
            if one(prop, cand.hex(), tmp, cpu)[0] == kind:
                best = cand
            else:
                i += size
        size //= 2
    return best.hex()


def describe(prop, case_hex, tmp):
    path = os.path.join(tmp, "desc.hex")
    with open(path, "w") as f:
        f.write(case_hex)
    r = subprocess.run([BIN, "describe", prop, path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                       text=True, errors="replace", preexec_fn=limits(60))
    return r.stdout.strip()


def check(prop, tier, seed, scale):
    t0 = time.time()
    build_programs() if prop in PROGRAMS else build()
    tmp = os.path.join(OUT, "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(tmp, exist_ok=True)
    os.environ["VERIF_TMP"] = tmp
    try:
        return run_workers(prop, tier, seed, scale, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run_workers(prop, tier, seed, scale, tmp, t0):
    procs = []
    for w in range(WORKERS):
        o = os.path.join(tmp, "w%d.json" % w)
        tr = os.path.join(tmp, "w%d.trace" % w)
        cmd = [BIN, "worker", prop, tier, str(seed), str(w), str(WORKERS), o, tr, KNOWN, str(scale)]
        err = open(os.path.join(tmp, "w%d.err" % w), "w")
        procs.append((w, o, tr, subprocess.Popen(cmd, stdout=err, stderr=err, preexec_fn=limits())))
    reports, violations, errors = [], [], []
    for w, o, tr, p in procs:
        rc = p.wait()
        if rc == 0 and os.path.exists(o):
            with open(o) as f:
                r = json.load(f)
            reports.append(r)
            if r["broken"]:
                errors.append(r["broken"])
            for v in r["violations"]:
                v["worker"] = w
                violations.append(v)
            continue
        # The worker died: find the case it was on and run it alone. One such
        # case is enough; each takes its time.
        if any(v.get("dead") for v in violations):
            continue
        try:
            with open(tr, "rb") as f:
                b = f.read()
            n = int.from_bytes(b[:8], "little")
            case = b[8:8 + n].hex()
        except OSError:
            errors.append("worker %d: exit %s without a trace" % (w, rc))
            continue
        kind, text = one(prop, case, tmp)
        if kind in ("crash", "endless"):
            case = shrink_dead(prop, case, tmp, kind)
            violations.append({"case": case, "message": "process died: " + text,
                               "describe": describe(prop, case, tmp), "worker": w, "dead": True})
        elif kind == "violated":
            violations.append({"case": case, "message": text, "describe": describe(prop, case, tmp), "worker": w})
        else:
            with open(os.path.join(tmp, "w%d.err" % w), errors="replace") as f:
                errors.append("worker %d: exit %s, case alone: %s\n%s" % (w, rc, kind, f.read()[-2000:]))

    # A violation must reproduce from its saved case in a fresh process.
    confirmed = []
    for v in sorted(violations, key=lambda v: len(v["case"])):
        if v.get("dead"):  # was run alone already
            confirmed.append(v)
            continue
        kind, text = one(prop, v["case"], tmp)
        if kind == "held" and prop == "P27":
            continue  # a matter of time: what the code does comes out every time
        if kind == "held":
            v["note"] = ("not reproduced by the single case: re-run worker %d of seed %d"
                         % (v["worker"], seed))
        elif kind == "broken":
            errors.append(text)
            continue
        confirmed.append(v)

    rc = 0
    if confirmed:
        v = confirmed[0]
        d = os.path.join(OUT, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.json" % (prop, hashlib.sha256(v["case"].encode()).hexdigest()[:12]))
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, "worker": v["worker"], "scale": scale,
                       "case": v["case"], "describe": v["describe"], "message": v["message"],
                       "note": v.get("note", "")}, f, indent=1)
        print("property %s violated: %s" % (prop, v["message"]))
        print("  case: %s" % v["describe"])
        for o in confirmed[1:]:
            print("  also: %s" % o["message"][:300].replace("\n", " "))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    for e in errors:
        print("CHECK ERROR: %s" % e)
    if errors and not confirmed:
        rc = 2

    files = [os.path.join(tmp, "w%d.json.hashes" % w) for w in range(WORKERS)]
    files = [f for f in files if os.path.exists(f)]
    distinct = int(subprocess.run([BIN, "distinct"] + files, stdout=subprocess.PIPE, text=True).stdout or 0)
    classes = {}
    for r in reports:
        for k, n in r["classes"].items():
            classes[k] = classes.get(k, 0) + n
    samples, seen = [], set()
    for i in range(12):
        for r in reports:
            if i < len(r["samples"]) and len(samples) < 12:
                s = r["samples"][i]
                tag = s.split("]")[0]
                if tag not in seen:
                    seen.add(tag)
                    samples.append(s)
    for k in sorted(classes):
        if k.startswith("known-finding "):
            print("KNOWN-FINDING: property=%s %s (%d cases)" % (prop, k[len("known-finding "):], classes[k]))
    tot = lambda k: sum(r[k] for r in reports)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot("evals"),
            "distinct_nontrivial": distinct,
            "rule": reports[0]["rule"] if reports else "",
            "samples": samples,
            "cases_generated": tot("fresh"),
            "of_which_enumerated": reports[0]["enumerated"] if reports else 0,
            "cases_mutated": tot("mutated"),
            "cases_nontrivial": tot("nontrivial"),
            "coverage_corpus": tot("corpus"),
            "edges_reached_best_worker": max([r["edges"] for r in reports] or [0]),
            "classes": dict(sorted(classes.items(), key=lambda kv: -kv[1])),
            "workers": WORKERS,
        },
        "wall_s": round(time.time() - t0, 2),
        "violations": len(confirmed),
        "assumptions": reports[0]["assumptions"] if reports else [],
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
        f.write("\n")
    print("%s %s seed=%d: %d evaluations, %d distinct non-trivial, %.1f s, %s"
          % (prop, tier, seed, ev["coverage"]["evaluations"], distinct, ev["wall_s"],
             {0: "held", 1: "VIOLATED", 2: "check error"}[rc]))
    return rc


def replay(path):
    with open(path) as f:
        r = json.load(f)
    build_programs() if r["property"] in PROGRAMS else build()
    tmp = os.path.join(OUT, "replay-%d" % os.getpid())
    os.makedirs(tmp, exist_ok=True)
    os.environ["VERIF_TMP"] = tmp
    try:
        kind, text = one(r["property"], r["case"], tmp)
        print(kind)
        print(text)
        if kind == "held" and r.get("note"):
            print("single case holds; re-running the whole worker")
            o = os.path.join(tmp, "w.json")
            subprocess.run([BIN, "worker", r["property"], r["tier"], str(r["seed"]), str(r["worker"]),
                            str(WORKERS), o, os.path.join(tmp, "t"), KNOWN, str(r["scale"])])
            with open(o) as f:
                vs = json.load(f)["violations"]
            for v in vs:
                print(v["message"])
            return 1 if vs else 0
        return {"held": 0, "broken": 2}.get(kind, 1)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    cmd = sys.argv[1] if len(sys.argv) > 1 else ""
    try:
        if cmd == "setup":
            build()
            try:
                build_programs()
            except CheckError as e:
                print(e)  # concerns only the checks that run them
            return 0
        if cmd == "check":
            tier = sys.argv[3] if len(sys.argv) > 3 else os.environ.get("VERIF_TIER", "quick")
            seed = int(os.environ.get("VERIF_SEED", "1"))
            return check(sys.argv[2], tier, seed, float(os.environ.get("VERIF_SCALE", "1")))
        if cmd == "replay":
            return replay(sys.argv[2])
    except CheckError as e:
        print("CHECK ERROR: %s" % e)
        return 2
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""Table of planted bugs -> /verif/seeded/<id>/. `seeds.py write [ids]` makes the folders (patch made in the scratch
copy LAB/repo), `seeds.py try [ids]` confirms each (stable tests, demo on both trees) and runs the property's check
against it in LAB. The lab is a scratch copy of /repo and /verif, see DESIGN.md."""
import json, os, subprocess, sys, re
LAB = os.environ.get("LAB", "/tmp/lab")
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(HERE, "..", "..", "seeded")
S = []
def seed(id, prop, needs, breaks, edits, demo):
    assert id not in [s["id"] for s in S], id
    S.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))
exec(open(os.path.join(HERE, "table.py")).read())
# These change only lines that a fix: commit added, so they do not count.
OWN = "s61-backslash-at-end s70-negative-ids s75-odd-last-byte s114-lookup-of-16-bits s131-tag-that-is-the-prefix s172-breaks-in-folded"
S = [s for s in S if s["id"] not in OWN.split()]

def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def clean():
    sh(f"git -C {LAB}/repo checkout -q -- .")
def apply(s):
    clean()
    for f, old, new in s["edits"]:
        p = f"{LAB}/repo/src/{f}"
        t = open(p).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
def write(s):
    d = os.path.join(OUT, s["id"])
    os.makedirs(d, exist_ok=True)
    apply(s)
    diff = sh(f"git -C {LAB}/repo diff").stdout
    clean()
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(open(HERE + "/demo.sh").read())
    os.chmod(d + "/demo.sh", 0o755)
    pre, _, body = s["demo"].rpartition("//MAIN\n")
    open(d + "/demo.rs", "w").write(open(HERE + "/prelude.rs").read() + pre + "\nfn main() {\n" + body.strip("\n") + "\n}\n")
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
def attempt(s, stable=True, props=None):
    d = os.path.abspath(os.path.join(OUT, s["id"]))
    res = {"id": s["id"], "prop": s["prop"]}
    clean()
    if stable:
        r = sh(f"bash {d}/demo.sh", cwd=f"{LAB}/repo")
        res["demo_clean"] = r.returncode
        if r.returncode: print(r.stdout[-600:], r.stderr[-900:])
    r = sh(f"git -C {LAB}/repo apply {d}/patch.diff"); assert r.returncode == 0, r.stderr
    try:
        if stable:
            r = sh(f"bash {d}/demo.sh", cwd=f"{LAB}/repo"); res["demo_bug"] = r.returncode
            if r.returncode in (0, 2): print(r.stdout[-300:], r.stderr[-400:])
            r = sh(f"bash {LAB}/stable.sh"); res["stable"] = r.returncode
            if r.returncode: print(r.stdout[-800:])
        for p in ([s["prop"]] if props is None else props):
            e = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")
            r = sh(f"python3 {LAB}/verif/run.py check {p} quick", env=e, cwd=f"{LAB}/verif")
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            res[p] = f"rc{r.returncode}" + (" CAUGHT" if v and r.returncode == 1 and f"property={p} " in v[0] else " MISSED")
            if not v and r.returncode: print(r.stdout[-500:], r.stderr[-400:])
    finally:
        clean()
    print(json.dumps(res), flush=True)
    return res
if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:]
    props = [i for i in ids if re.fullmatch(r"P\d\d", i)]
    ids = [i for i in ids if i not in props]
    for s in S:
        if ids and not any(s["id"].startswith(i) for i in ids): continue
        if cmd == "write": write(s)
        elif cmd == "try": write(s); attempt(s)
        elif cmd == "demo": write(s); attempt(s, props=[])
        elif cmd == "check": attempt(s, stable=False, props=props or None)

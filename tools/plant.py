#!/usr/bin/env python3
"""plant.py FILE.py ...: creates planted bugs in /verif/seeded from definitions and tries them.
plant.py try ID ...: applies each bug to /repo, runs build, tests, demo and the check of its property, and reverts it.
A definition file calls bug(id, prop, [(file, old, new), ...], demo, needs, breaks); demo is the text of demo.sh, or Go
source of a program (cwd /repo) that exits nonzero when the bug shows."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
def sh(*a, **k): return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
made = []
def bug(id, prop, edits, demo, needs, breaks, files=None):
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="plant-")
    sh("git", "-C", R, "worktree", "add", "--detach", tmp + "/wt")
    try:
        for f, old, new in edits:
            p = os.path.join(tmp, "wt", f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        sh("gofmt", "-w", *[os.path.join(tmp, "wt", f) for f, _, _ in edits])
        diff = sh("git", "-C", tmp + "/wt", "diff").stdout
    finally:
        sh("git", "-C", R, "worktree", "remove", "--force", tmp + "/wt"); shutil.rmtree(tmp)
    gone = [l[1:] for l in diff.decode().splitlines() if l[:1] == "-" and not l.startswith("---") and l[1:].strip()]
    base = "\n".join(sh("git", "-C", R, "show", "9030dff:" + f).stdout.decode() for f in {f for f, _, _ in edits}).splitlines()
    if not [l for l in gone if l in base and len(l.strip()) > 2]: print("NOTE: %s changes no line of the original" % id)
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    for n, t in (files or {}).items():
        open(os.path.join(d, n), "w").write(t)
    if not demo.startswith("#!"):
        open(os.path.join(d, "main.go"), "w").write(demo)
        demo = '#!/bin/bash\n# %s\nexec go run "$(dirname "$0")/main.go"\n' % breaks.split("\n")[0]
    open(os.path.join(d, "demo.sh"), "w").write(demo)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    made.append(id)
def clean():
    assert sh("git", "-C", R, "status", "--porcelain").stdout == b"", "repo not clean"
def attempt(id):
    d = os.path.join(V, "seeded", id)
    prop = json.load(open(d + "/meta.json"))["property"]
    clean()
    env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")
    def demo():
        try:
            p = sh("bash", d + "/demo.sh", cwd=R, timeout=300)
        except subprocess.TimeoutExpired:
            return 124, b"timeout"
        return p.returncode, p.stdout
    rc, out = demo()
    res = ["%s (%s):" % (id, prop)]
    if rc != 0: res.append("DEMO FAILS ON CLEAN TREE: %s" % out[-500:].decode("utf-8", "replace"))
    clean()
    p = sh("git", "-C", R, "apply", d + "/patch.diff")
    if p.returncode: return "%s: patch does not apply: %s" % (id, p.stdout.decode())
    try:
        p = sh("bash", "/opt/vp/build.sh")
        if p.returncode: res.append("BUILD FAILS %s" % p.stdout[-800:].decode())
        p = sh("bash", "/opt/vp/test.sh", "/tmp/plant-tests.json")
        base = json.load(open("/opt/vp/BASELINE.json")); got = json.load(open("/tmp/plant-tests.json"))
        ok = lambda j: set(j.get("passed") or [k for k, v in j.get("tests", {}).items() if v in ("pass", "passed", True)])
        stable = set(base.get("stable") or base.get("tests") or ok(base)) if not isinstance(base, list) else set(base)
        miss = stable - ok(got)
        if miss: res.append("TESTS FAIL %s" % sorted(miss)[:5])
        rc, out = demo()
        res.append("demo exit %d" % rc + ("" if rc else " BUT SHOULD FAIL"))
        p = sh("python3", V + "/run/check.py", prop, "quick", env=env, cwd=V)
        o = p.stdout.decode("utf-8", "replace")
        caught = p.returncode == 1 and "VIOLATION property=%s " % prop in o
        res.append("CAUGHT" if caught else "MISSED (exit %d): %s" % (p.returncode, o[-600:]))
        if caught: res.append(next((l[:160] for l in o.splitlines() if l.startswith("rejected")), ""))
    finally:
        sh("git", "-C", R, "checkout", "--", ".")
    clean()
    return " | ".join(res)
if __name__ == "__main__":
    if sys.argv[1] == "try":
        ids = sys.argv[2:]
    else:
        for f in sys.argv[1:]:
            exec(compile(open(f).read(), f, "exec"))
        ids = made
    for i in ids: print(attempt(i), flush=True)

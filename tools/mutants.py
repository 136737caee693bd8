"""mutants.py OUT WORKERS N [FILE ...]: mutation testing. Makes N random small changes to every file of /repo (see mutate/), keeps those
that build and pass the tests, and runs the checks that depend on the file until one reports a violation. Everything runs in
copies of /repo and /verif under /tmp/mut, which are bound over the originals in a mount namespace of their own."""
import re, json, os, random, shutil, subprocess, sys, threading, queue
CHECKS = {
 "binvox/binvox.go": "C07 C01 C08 C26 C10 C05 C16", "binvox/read.go": "C03 C02 C01", "binvox/write.go": "C01 C02 C04", "binvox/voxelize.go": "C10 C11 C21 C12",
 "binvox/mesh.go": "C16", "binvox/manifold.go": "C14", "binvox/face-templates.go": "C14", "binvox/marching-cubes.go": "C15",
 "vshell/merge.go": "C05 C06", "vshell/read.go": "C07 C03 C02", "vshell/write.go": "C07 C02 C04", "vshell/vshell.go": "C05 C07 C06",
 "stl/stl.go": "C17 C25", "cmd/voxcut/voxcut.go": "C08 C26 C09 C16 C14 C04", "cmd/voxcut-dice/voxcut-dice.go": "C09", "cmd/stldice/stldice.go": "C12 C24 C13",
 "cmd/merge-stl/merge-stl.go": "C25 C24", "cmd/merge-binvox/merge-binvox.go": "C25 C06 C05", "cmd/binvox-dice/binvox-dice.go": "C27",
 "cmd/manifold-mesh/manifold-mesh.go": "C14", "cmd/marching-cubes/marching-cubes.go": "C15", "cmd/svx2stl/main.go": "C23",
 "stl2svx/agent/agent.go": "C21 C28 C22", "stl2svx/stl/stl.go": "C22 C21 C23", "stl2svx/master/master.go": "C23 C28 C22 C18 C19 C20",
 "stl2svx/stl2svx-client/stl2svx-client.go": "C28", "stl2svx/stl2svx-server/stl2svx-server.go": "C28",
}
out, workers, n = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
files = sys.argv[4:] or list(CHECKS)
M = "/tmp/mut"
os.makedirs(M, exist_ok=True)
subprocess.run(["go", "build", "-o", M + "/mutate", "main.go"], cwd="/verif/tools/mutate", check=True)
source = {f: subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + f], stdout=subprocess.PIPE, check=True).stdout for f in files}
r = random.Random(int(os.environ.get("SEED", "1")))
jobs = []
for f in files:
    open(M + "/src.go", "wb").write(source[f])
    l = sorted(set(subprocess.run([M + "/mutate", M + "/src.go"], stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines()))
    # axis confusions are many: at most half
    r.shuffle(l)
    l = [x for x in l if '"axis"' not in x or re.fullmatch(r"(n|d|t|T|N|Get|GetN|Dim|ModelDim|count|start|p|i|k|m|ll|ur|mb|sub|l|r|f)*[xyzXYZ][0-9i]?", json.loads(x)["New"])]
    ax = [x for x in l if '"axis"' in x]; no = [x for x in l if '"axis"' not in x]
    k = min(len(ax), n // 3)
    jobs += [(f, json.loads(x)) for x in no[:n - k] + ax[:k]]
r.shuffle(jobs)
done = set()
if os.path.exists(out):
    for l in open(out):
        d = json.loads(l); done.add((d["file"], d["Off"], d["New"], d["Len"]))
q = queue.Queue()
for f, c in jobs:
    if (f, c["Off"], c["New"], c["Len"]) not in done:
        q.put((f, c))
print(len(jobs), "changes,", q.qsize(), "to do", flush=True)
lock = threading.Lock()

def work(k):
    w = "%s/w%d" % (M, k)
    shutil.rmtree(w, True); os.makedirs(w)
    subprocess.run(["git", "clone", "-q", "/repo", w + "/repo"], check=True)
    os.makedirs(w + "/verif")
    for x in ("run", "spec", "harness", "known-findings.json", "properties.jsonl", "MANIFEST.json"):
        subprocess.run(["cp", "-a", "/verif/" + x, w + "/verif/"], check=True)
    os.makedirs(w + "/verif/evidence", exist_ok=True)
    env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod -buildvcs=false", GOWORK="off")
    def ns(cmd, t):
        try:
            p = subprocess.run(["unshare", "-Urm", "--kill-child", "bash", "-c", "mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /repo && %s" % (w, w, cmd)],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, env=env, text=True, errors="replace")
            return p.returncode, p.stdout
        except subprocess.TimeoutExpired:
            return -1, "timeout"
    while True:
        try: f, c = q.get_nowait()
        except queue.Empty: return
        src = source[f]
        new = src[:c["Off"]] + c["New"].encode() + src[c["Off"] + c["Len"]:]
        open(w + "/repo/" + f, "wb").write(new)
        res = dict(file=f, old=src[c["Off"]:c["Off"] + c["Len"]].decode()[:120], text=src.decode().splitlines()[c["Line"] - 1].strip()[:160], **c)
        rc, o = ns("go build $(go list -e ./... | grep -v /cmd/stl2svx$)", 200)
        if rc != 0: res["fate"] = "no build"
        else:
            rc, o = ns("go test -vet=off $(go list -e ./... | grep -v /cmd/stl2svx$)", 120)
            if rc != 0: res["fate"] = "tests"
            else:
                res["fate"], res["runs"] = "SURVIVED", []
                for p in CHECKS[f].split():
                    rc, o = ns("cd /verif && python3 run/check.py %s quick" % p, 500)
                    res["runs"].append([p, rc, "" if rc == 0 else o[-300:]])
                    if rc == 1 and "VIOLATION property=" + p in o:
                        res["fate"] = "caught"; break
                    if rc != 0:
                        res["fate"] = "NO ANSWER"; res["out"] = o[-1500:]; break
        open(w + "/repo/" + f, "wb").write(src)
        with lock:
            with open(out, "a") as g: g.write(json.dumps(res) + "\n")
            print(res["fate"], f, c["Line"], c["What"], repr(res["old"][:40]), "->", repr(c["New"][:40]), flush=True)
ts = [threading.Thread(target=work, args=(k,)) for k in range(workers)]
for t in ts: t.start()
for t in ts: t.join()

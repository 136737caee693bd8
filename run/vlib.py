"""Shared machinery of the checks: building, TLC, driving the real code, verdicts.

Exit status of a check: 0 held, 1 VIOLATION line printed, anything else is an
error of the check itself (class CheckError)."""
import atexit, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
MODULE = "github.com/gmlewis/stldice/v4"
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CLIS = ["stldice", "voxcut", "voxcut-dice", "binvox-dice", "merge-stl", "merge-binvox",
        "manifold-mesh", "marching-cubes", "svx2stl"]

def own_fault(msg):
    """Whether a crash is one of the code under test: a fault of the Go runtime in one of its goroutines, which may
    depend on the schedule and so not come again."""
    m = re.search(r"(?m)^(?:fatal error: (?!.*(?:out of memory|cannot allocate))|panic: ).*$", msg.decode("utf-8", "replace"))
    if not m:
        return False
    stack = msg.decode("utf-8", "replace")[m.end():].split("goroutine ", 2)[1:2]
    frames = re.findall(r"(?m)^\s+(/\S+\.go):\d+", stack[0] if stack else "")
    frames = [f for f in frames if "/go1." not in f and "/src/runtime/" not in f]
    return bool(frames) and "/drv/" not in frames[0]

class CheckError(Exception):
    pass

LIM = 2000000000

def parse_event(l):
    """Events hold integers only; TLC's have 32 bits."""
    v = json.loads(l, parse_int=lambda t: max(-LIM, min(LIM, int(t))))
    if isinstance(v.get("err"), str):
        v["err"] = re.sub(r"[^ -~]", " ", v["err"].replace('"', "'").replace("\\", "/"))[:300]
    return v

def env_go():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOSUMDB="off",
             GOCACHE=os.path.join(VERIF, ".cache", "go-build"), CGO_ENABLED="1")
    e["PATH"] = e.get("PATH", "") + ":/usr/local/go/bin"
    e.setdefault("HOME", "/root")
    return e

def tail(b, n=1500):
    if isinstance(b, bytes):
        b = b.decode("utf-8", "replace")
    return b[-n:]

class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.late = ""     # why a driver did not do all of its cases
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        os.chmod(self.work, 0o755)
        if not os.environ.get("VERIF_KEEP"):
            atexit.register(shutil.rmtree, self.work, True)
        self.bin = os.path.join(self.work, "bin")
        os.mkdir(self.bin)
        self.states = self.transitions = 0
        self.events = self.rejected = 0
        self.samples, self.notes, self.rejects = [], [], []
        self.coverage = {}
        self.tlc_runs = []
        self.assumptions = []
        self.lock = threading.Lock()

    # ---- building the code under test -------------------------------------
    def build(self, clis=(), race=False, server=False):
        """Builds the driver (and the named command-line tools) from /repo's working tree."""
        mod = os.path.join(self.work, "go.mod")
        shutil.copy(os.path.join(HARNESS, "go.mod"), mod)
        shutil.copy(os.path.join(HARNESS, "go.sum"), os.path.join(self.work, "go.sum"))
        env = env_go()
        def go(*args):
            p = subprocess.run(["go", "build", "-modfile", mod] + list(args), cwd=HARNESS, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode != 0:
                raise CheckError("go build %s failed:\n%s" % (" ".join(args), tail(p.stdout)))
        self.drv = os.path.join(self.bin, "drv")
        go(*((["-race"] if race else []) + ["-o", self.drv, "./cmd/drv"]))
        t = time.time()
        pk = ["%s/cmd/%s" % (MODULE, c) for c in clis]
        if server:
            pk += [MODULE + "/stl2svx/stl2svx-server", MODULE + "/stl2svx/stl2svx-client"]
        if pk:
            go("-o", self.bin + "/", *pk)
        self.timing("build tools", t)

    def timing(self, what, t):
        if os.environ.get("VERIF_TIMING"):
            print("%6.1f s  %s" % (time.time() - t, what))

    # ---- TLC ----------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, workers="auto", extra=(), timeout=600, simulate=None, expect_ok=True,
            heap="6g", name=None, dfs=False):
        """Runs TLC on spec/<module>.tla with spec/<cfg>.cfg; returns its output."""
        meta = tempfile.mkdtemp(dir=self.work, prefix="tlc-")
        t = time.time()
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m"]
        if dfs:
            cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        cmd += ["-cp", TLAJARS, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE", "-config", (cfg or module) + ".cfg",
               "-workers", str(workers)]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate[0], "-depth", str(simulate[1]), "-seed", str(self.seed)]
        cmd += list(extra) + [module + ".tla"]
        e = dict(os.environ); e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC on %s did not finish in %d s" % (module, timeout))
        out = p.stdout.decode("utf-8", "replace")
        shutil.rmtree(meta, True)
        ok = p.returncode == 0
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        if not m:
            m2 = re.search(r"The number of states generated: (\d+)", out)
            st = (int(m2.group(1)), int(m2.group(1))) if m2 else (0, 0)
        else:
            st = (int(m.group(1)), int(m.group(2)))
        self.timing("tlc %s" % (cfg or module), t)
        with self.lock:
            self.transitions += st[0]; self.states += st[1]
            self.tlc_runs.append({"module": module, "cfg": cfg or module, "generated": st[0], "distinct": st[1],
                                  "mode": "simulate" if simulate else "exhaustive"})
        if expect_ok and not ok:
            raise CheckError("TLC on %s (%s) failed with status %d:\n%s" % (module, cfg or module, p.returncode, tail(out, 4000)))
        return out

    def refuted(self, module, cfg):
        """Runs TLC on a design that is wrong on purpose: it must find a behaviour that violates the property."""
        out = self.tlc(module, cfg, workers=4, timeout=1500, expect_ok=False)
        if not re.search(r"Invariant \S+ is violated|Temporal propert.* violated|Action property .* is violated", out):
            raise CheckError("the wrong design %s is not refuted:\n%s" % (cfg, tail(out, 3000)))
        with self.lock:
            self.coverage.setdefault("wrong_designs_refuted", []).append(cfg)

    def tlc_cases(self, module, cfg=None, env=None, **kw):
        """Runs TLC on a generator; returns the cases it prints (lines "CASE <json>")."""
        out = self.tlc(module, cfg, env, **kw)
        cases = []
        for l in out.splitlines():
            if l.startswith('"CASE '):
                cases.append(json.loads(json.loads(l)[5:]))
        return cases

    # ---- driving the real code -----------------------------------------------
    def drive(self, what, cases=None, n=None, args=(), timeout=300, env=None, name=None, shards=1):
        """Runs the driver (in several processes if shards > 1)."""
        tag, t = name or what, time.time()
        total = len(cases) if cases is not None else n
        cuts = [total * i // shards for i in range(shards + 1)]
        res = parallel(*[lambda a=a, b=b, i=i: self.drive1(what, cases, a, b, args, timeout, env, "%s-%d" % (tag, i))
                         for i, (a, b) in enumerate(zip(cuts, cuts[1:])) if a < b])
        self.timing("drive " + tag, t)
        return [v for r in res for v in r]

    def drive1(self, what, cases, lo, n, args, timeout, env, tag):
        """Runs the driver on the cases lo..n-1; returns the list of events. A case in which the real code
        kills or hangs the process becomes the event {"died": ...} after it has been
        reproduced in a process of its own."""
        cf = os.path.join(self.work, tag + ".cases")
        if cases is not None:
            with open(cf, "w") as f:
                for c in cases:
                    f.write(json.dumps(c) + "\n")
        out = os.path.join(self.work, tag + ".trace")
        jr = os.path.join(self.work, tag + ".journal")
        scratch = tempfile.mkdtemp(dir=self.work, prefix="scratch-")
        e = dict(os.environ); e.update(env or {})
        e["VERIF_BIN"] = self.bin
        races = os.path.join(self.work, tag + ".race")
        e["GORACE"] = "exitcode=0 log_path=" + races   # (for drivers built with the race detector)
        deadline = time.time() + timeout
        if not self.thorough:
            deadline = min(deadline, self.t0 + 480)
        def run(lo, hi, of):
            cmd = [self.drv, what, "-seed", str(self.seed), "-tier", self.tier, "-out", of, "-journal", jr,
                   "-work", scratch, "-from", str(lo), "-to", str(hi)]
            if cases is not None:
                cmd += ["-cases", cf]
            cmd += [str(a) for a in args]
            err = os.path.join(self.work, tag + ".stderr")
            with open(err, "wb") as ef:
                p = subprocess.Popen(cmd, cwd=scratch, env=e, stdout=ef, stderr=subprocess.STDOUT, start_new_session=True)
                try:
                    rc = p.wait(max(1, deadline - time.time()))
                except subprocess.TimeoutExpired:
                    os.killpg(p.pid, signal.SIGKILL); p.wait()
                    rc = "late"
                finally:
                    try: os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError: pass
            with open(err, "rb") as f:
                msg = f.read()
            begun = -1
            if os.path.exists(jr):
                with open(jr) as f:
                    l = f.read().split()
                begun = int(l[-1]) if l else -1
                os.remove(jr)
            return rc, begun, msg
        events, part, slow = [], 0, 0
        while lo < n:
            of = "%s.%d" % (out, part); part += 1
            rc, begun, msg = run(lo, n, of)
            if os.path.exists(of):
                with open(of) as f:
                    for l in f:
                        if l.endswith("\n"):
                            events.append(parse_event(l))
            if rc == 0:
                break
            if rc == "late":  # what there is may still be enough for a verdict
                events = [v for v in events if v.get("i") != begun]
                with self.lock:
                    self.late = "driver %s is too slow: stopped at case %d of %d..%d" % (what, begun, lo, n)
                break
            if rc == 3 or begun < 0:  # the driver's own failure
                raise CheckError("driver %s failed with status %d:\n%s" % (what, rc, tail(msg)))
            # Drop what the dying case may have written, and reproduce it alone.
            events = [v for v in events if v.get("i") != begun]
            of1 = out + ".alone"
            died, msg1, rc1 = own_fault(msg), msg, rc
            for _ in range(0 if died else 1 if rc == 97 else 2):
                rc1, b1, msg1 = run(begun, begun + 1, of1)
                alone = []
                if os.path.exists(of1):
                    with open(of1) as f:
                        alone = [parse_event(l) for l in f if l.endswith("\n")]
                    os.remove(of1)
                if rc1 == "late":
                    break
                if rc1 == 3:
                    raise CheckError("driver %s failed with status %d:\n%s" % (what, rc1, tail(msg1)))
                if rc1 != 0:
                    died = True
                    break
            if rc1 == "late":
                with self.lock:
                    self.late = "driver %s is too slow: stopped at case %d of %d..%d" % (what, begun, lo, n)
                break
            if not died and rc == 97:  # only slow, not hanging
                events += alone
                slow += 1
                lo = begun + 1
                if slow < 3:
                    continue
                with self.lock:
                    self.late = "driver %s is too slow: stopped at case %d of %d..%d" % (what, begun, lo, n)
                break
            if not died:
                raise CheckError("driver %s died (status %d) at case %d, but not again when run alone:\n%s" % (what, rc, begun, tail(msg)))
            if b"panic:" in msg1 and MODULE.encode() not in msg1:
                raise CheckError("the driver %s itself panicked at case %d:\n%s" % (what, begun, tail(msg1)))
            why = "hangs" if rc1 == 97 else "kills the process"
            events.append({"i": begun, "died": why, "msg": tail(msg1, 600)})
            if sum({"hangs": 3}.get(v.get("died"), 1) for v in events if "died" in v) >= 5:  # a hang takes long
                break  # enough evidence
            lo = begun + 1
        for f in sorted(glob.glob(races + ".*")):
            with open(f) as g:
                txt = g.read()
            if "DATA RACE" in txt:
                if MODULE not in txt:
                    raise CheckError("data race in the driver itself:\n" + txt[:3000])
                events.append({"op": "race", "i": -1, "report": re.sub(r"[^ -~]+", " ", txt)[:1500]})
        shutil.rmtree(scratch, True)
        return events

    # ---- validating events against the specification --------------------------
    def validate(self, module, events, env=None, cfg=None, timeout=600, heap="6g", tag=""):
        """TLC judges every event with the operator Verdict of the trace specification."""
        if not events:
            raise CheckError("no events for %s" % module)
        tf = os.path.join(self.work, "%s%s.ndjson" % (module, tag))
        with open(tf, "w") as f:
            for v in events:
                f.write(json.dumps(v) + "\n")
        e = {"TRACE": tf}; e.update(env or {})
        out = self.tlc(module, cfg, e, timeout=timeout, heap=heap)
        rej = []
        for l in out.splitlines():
            m = re.match(r'^"REJECT (\d+) (.*)"$', l)
            if m:
                rej.append((int(m.group(1)) - 1, m.group(2)))
        m = re.search(r'"JUDGED (\d+)"', out)
        if not m or int(m.group(1)) != len(events):
            raise CheckError("%s judged %s of %d events:\n%s" % (module, m and m.group(1), len(events), tail(out)))
        self.events += len(events); self.rejected += len(rej)
        for idx, why in sorted(rej):
            self.rejects.append((events[idx], why))
        for v in events[:2]:
            self.sample(v)
        return rej

    def reject(self, event, why):
        self.rejects.append((event, why))

    def sample(self, v):
        s = json.dumps(v)
        if len(self.samples) < 8:
            self.samples.append(s if len(s) <= 1500 else s[:1500] + "...")

    # ---- the end ----------------------------------------------------------------
    def finish(self, level="model_checking"):
        known = []
        try:
            with open(os.path.join(VERIF, "known-findings.json")) as f:
                known = [k for k in json.load(f)["findings"] if k["property"] == self.prop]
        except FileNotFoundError:
            pass
        kf, bad = {}, []
        for ev, why in self.rejects:
            key = ev.get("key")
            hit = next((k for k in known if key is not None and key == k["key"] and k.get("why", why) == why), None)
            if hit:
                kf[hit["key"]] = hit
            else:
                bad.append((ev, why))
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.events, "samples": self.samples or ["none"],
               "tlc_runs": self.tlc_runs, "rejected": len(self.rejects), "known_findings_seen": len(kf)}
        cov.update(self.coverage)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(bad)}
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.prop + ".json")
        s = json.dumps(ev, indent=1)
        if len(s) > 60000:
            cov["samples"] = [x[:300] for x in cov["samples"][:3]]; s = json.dumps(ev, indent=1)
        with open(p + ".tmp", "w") as f:
            f.write(s)
        os.replace(p + ".tmp", p)
        for k in sorted(kf.values(), key=lambda k: str(k["key"])):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        if bad:
            rd = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, "%s-%s-%d.json" % (self.prop, self.tier, self.seed))
            with open(rp, "w") as f:
                json.dump([{"why": w, "event": v} for v, w in bad[:200]], f)
            for v, w in bad[:5]:
                s = json.dumps(v)
                print("rejected: %s: %s" % (w, s if len(s) < 700 else s[:700] + "..."))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        if self.late:
            raise CheckError(self.late)
        print("%s held: %d events of the real code judged, %d TLC states, %.1f s" % (self.prop, self.events, self.states, time.time() - self.t0))
        return 0

def parallel(*fns):
    """Runs functions at the same time; returns their results; raises the first exception."""
    res, exc = [None] * len(fns), []
    def w(i, f):
        try:
            res[i] = f()
        except BaseException as e:
            exc.append(e)
    ts = [threading.Thread(target=w, args=(i, f)) for i, f in enumerate(fns)]
    for t in ts: t.start()
    for t in ts: t.join()
    if exc:
        raise exc[0]
    return res

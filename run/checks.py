"""The checks: one function per property. Each explores the design with TLC,
drives the real code (built from /repo's working tree), and lets TLC judge
everything the real code did with the trace specification of the property."""
import glob, json, os, random
from vlib import CLIS, CheckError, parallel

def pick(c, quick, thorough):
    return thorough if c.thorough else quick

def subset(c, cases, n):
    """At most n of the cases, chosen by the seed."""
    seen, out = set(), []
    for x in cases:
        k = json.dumps(x, sort_keys=True)
        if k not in seen:
            seen.add(k); out.append((k, x))
    out.sort()
    if len(out) > n:
        out = random.Random(c.seed).sample(out, n)
    return [x for _, x in out]

# ---- files ------------------------------------------------------------------
def design_files(c, fmt):
    return lambda: c.tlc("VoxelFile", "VoxelFile_" + ("deep_" if c.thorough else "") + fmt)

def C01(c):
    gen, _, _ = parallel(lambda: c.tlc_cases("VoxelCases", "VoxelCases_" + pick(c, "mb", "dmb")),
                         design_files(c, "binvox"), c.build)
    gen = subset(c, gen, 20000)
    ev = c.drive("roundtrip", cases=gen, name="gen", timeout=600)
    ev += c.drive("roundtrip", n=pick(c, 400, 6000), name="rnd", timeout=1500)
    c.coverage["models_from_spec"] = len(gen)
    c.validate("TraceFiles", ev, cfg="C01", timeout=1200)

def C02(c):
    parallel(design_files(c, "binvox"), c.build)
    ev = c.drive("subbox", n=pick(c, 1200, 30000), timeout=1500)
    c.validate("TraceFiles", ev, cfg="C02", timeout=1200)

DEFECTS = ["empty", "magic", "version", "swapped", "nodim", "dimword", "dim2", "dimneg", "dimfloat", "dimhuge", "notranslate",
           "translate2", "translateword", "noscale", "scaleword", "scale2", "nodata", "dataword", "cut"]
LINES = {0: ["#FORMAT 12", "#FORMAT 10", "#FORMAT 1.5", "#FORMAT 1 2", "#FORMAT 1x", "#FORMAT", "#FORMAT ", "#FORMAT x", "# FORMAT 1", "##FORMAT 1", "x#FORMAT 1",
             "#FORMAT1", "#FORMAT -1", "#FORMAT 0", "#FORMATS 1"],
         1: ["dim 9 9 9 9", "dim 9 9 9x", "xdim 9 9 9", "dim x 9 9", "dim 9 x 9", "dim 9 9 x", "dim -9 9 9", "dim 9 -9 9", "dim 9 9 -9", "dim 9e1 9 9",
             "dim 0x9 9 9", "dim 9,9,9", "dim 9 9", "dim", "", "dimension 9 9 9", "translate 9 9 9", "dim 99999999999999999999 9 9", "dim 9 9 99999999999999999999"],
         2: ["translate 1 2 3 4", "xtranslate 1 2 3", "translate 1 2", "translate", "", "translate 1 2 3x", "translate 1 2,5 3", "translation 1 2 3", "scale 1",
             "translate x 2 3", "translate 1 x 3", "dim 1 2 3"],
         3: ["scale 1 2", "xscale 1", "scale 1x", "scale x", "scale ", "scaled 1", "scale 1,5", "", "translate 1 2 3", "scale1"],
         4: ["datax", "data 1", "", "Data", "xdata", "dat", "data data", "scale 1"]}
DEFECTS += ["line %d %s" % (k, t) for k in LINES for t in LINES[k]]

def C03(c):
    fb, fs, _, _, _ = parallel(lambda: c.tlc_cases("VoxelCases", "VoxelCases_" + pick(c, "fb", "dfb")),
                               lambda: c.tlc_cases("VoxelCases", "VoxelCases_" + pick(c, "fs", "dfs")),
                               design_files(c, "binvox"), design_files(c, "vshell"), c.build)
    gen = subset(c, fb, pick(c, 12000, 60000)) + subset(c, fs, pick(c, 4000, 40000))
    good = [{"n": [1, 2, 1], "payload": [1, 2]}, {"n": [2, 2, 2], "payload": [0, 4, 1, 4]}, {"n": [0, 0, 0], "payload": []}]
    for f in ("binvox", "vshell"):
        for d in DEFECTS:
            for g in good:
                for _ in range(1 if d[:5] == "line " else 4):
                    gen.append(dict(g, fmt=f, hdr=d))
    ev = c.drive("decode", cases=gen, name="gen", timeout=900)
    ev += c.drive("decode", n=pick(c, 3000, 60000), name="rnd", timeout=900)
    c.coverage["files_from_spec"] = len(gen)
    c.validate("TraceFiles", ev, cfg="C03", timeout=1500)

def C04(c):
    parallel(lambda: c.tlc("FileWriteMC"), c.build)
    ev = c.drive("fault", n=pick(c, 24, 200), timeout=900)
    c.validate("TraceFiles", ev, cfg="C04", timeout=900)

def C07(c):
    gen, _, _ = parallel(lambda: c.tlc_cases("VoxelCases", "VoxelCases_" + pick(c, "ms", "dms")),
                         design_files(c, "vshell"), c.build)
    gen = subset(c, gen, 20000)
    ev = c.drive("shellfile", cases=gen, name="gen", timeout=600)
    ev += c.drive("shellfile", n=pick(c, 400, 6000), name="rnd", timeout=1500)
    c.coverage["models_from_spec"] = len(gen)
    c.validate("TraceFiles", ev, cfg="C07", timeout=1200)

# ---- shells -------------------------------------------------------------------
def shell(c, cfg, n):
    gen, _, _ = parallel(lambda: c.tlc_cases("ShellMergeMC", "ShellMergeMC_gen", workers=4),
                         lambda: c.tlc("ShellMergeMC", pick(c, "ShellMergeMC", "ShellMergeMC_deep"), timeout=3000, workers=pick(c, 5, 8)), c.build)
    gen = subset(c, gen, pick(c, 600, 8000))
    ev = c.drive("shellmerge", cases=gen, name="gen", timeout=900)
    ev += c.drive("shellmerge", n=n, name="rnd", timeout=900)
    c.coverage["merges_from_spec"] = len(gen)
    c.validate("TraceShell", ev, cfg=cfg, timeout=3000)

def C05(c):
    shell(c, "C05", pick(c, 500, 8000))

def C06(c):
    shell(c, "C06", pick(c, 800, 10000))

# ---- voxcut, voxcut-dice --------------------------------------------------------
def C08(c):
    g1, g2, _, _, _ = parallel(lambda: c.tlc_cases("CutMC", "CutMC_gen", workers=2), lambda: c.tlc_cases("CutMC", "CutMC_gen2", workers=2),
                               lambda: c.tlc("CutMC", workers=3), lambda: c.tlc("CutMC", "CutMC_two", workers=3), lambda: c.build(["voxcut"]))
    gen = subset(c, g1, pick(c, 1200, 16000)) + subset(c, g2, pick(c, 600, 12000))
    ev = c.drive("cut", cases=gen, name="gen", timeout=1500, shards=8)
    ev += c.drive("cut", n=pick(c, 1200, 16000), name="rnd", timeout=1500, shards=8)
    c.coverage["cuts_from_spec"] = len(gen)
    c.validate("TraceCut", ev, cfg="C08", timeout=1500)

def C09(c):
    parallel(lambda: c.tlc("CutMC"), lambda: c.build(["voxcut", "voxcut-dice"]))
    ev = c.drive("cutdice", n=pick(c, 240, 4000), timeout=1500, shards=8)
    c.validate("TraceCut", ev, cfg="C09", timeout=1500)

def C26(c):
    parallel(lambda: c.tlc("CutMC"), lambda: c.build(["voxcut"]))
    ev = c.drive("voxfile", n=pick(c, 1000, 16000), timeout=1500, shards=8)
    c.validate("TraceCut", ev, cfg="C26", timeout=1500)

def C27(c):
    designs = [lambda: c.tlc("BinvoxDiceMC", pick(c, "BinvoxDiceMC", "BinvoxDiceMC_deep"), workers=2)]
    parallel(lambda: c.build(["binvox-dice", "voxcut"]), *designs)
    ev = c.drive("binvoxdice", n=pick(c, 280, 4000), timeout=1500, shards=8)
    c.validate("TraceBinvoxDice", ev, cfg="C27", timeout=1500)

# ---- voxelization -----------------------------------------------------------------
def C10(c):
    gen, _, _ = parallel(lambda: c.tlc_cases("VoxelizeGen", workers=2), lambda: c.tlc("VoxelizeMC", pick(c, "VoxelizeMC", "VoxelizeMC_deep"), workers=4), c.build)
    gen = subset(c, gen, pick(c, 1200, 3000))
    ev = c.drive("voxelize", cases=gen, name="gen", timeout=900, shards=4)
    ev += c.drive("voxelize", n=pick(c, 1500, 30000), name="rnd", timeout=900, shards=8)
    c.coverage["solids_from_spec"] = len(gen)
    c.validate("TraceVoxelize", ev, cfg="C10", timeout=3000)

def C11(c):
    parallel(lambda: c.tlc("VoxelizeMC", pick(c, "VoxelizeMC", "VoxelizeMC_deep"), workers=4), lambda: c.build(race=True))
    ev = c.drive("subdivide", n=pick(c, 120, 2400), timeout=1500, shards=4)
    c.validate("TraceVoxelize", ev, cfg="C11", timeout=1500)

# ---- stldice ----------------------------------------------------------------------
def dice_design(c):
    return c.tlc("DiceMC", pick(c, "DiceMC", "DiceMC_deep"), workers=4, timeout=3000)

def C12(c):
    parallel(lambda: dice_design(c), lambda: c.build(["stldice"]))
    ev = c.drive("dice", n=pick(c, 500, 8000), timeout=1500, shards=8)
    c.validate("TraceDice", ev, cfg="C12", timeout=3000)

def C13(c):
    parallel(lambda: dice_design(c), lambda: c.build(["stldice"]))
    ev = c.drive("dicecrash", n=pick(c, 120, 2400), timeout=3000, shards=8)
    c.validate("TraceDice", ev, cfg="C13", timeout=1500)

def C24(c):
    parallel(lambda: dice_design(c), lambda: c.build(["stldice", "voxcut", "merge-stl"]))
    ev = c.drive("dicescript", n=pick(c, 240, 4000), timeout=3000, shards=8)
    c.validate("TraceDice", ev, cfg="C24", timeout=3000)

# ---- merge-stl, merge-binvox ----------------------------------------------------------
def C17(c):
    gen, _, _ = parallel(lambda: c.tlc_cases("StlMergeGen", pick(c, "StlMergeGen", "StlMergeGen_deep"), workers=2),
                         lambda: c.tlc("StlMerge", pick(c, "StlMerge", "StlMerge_deep"), workers=4), lambda: c.build(race=True))
    gen = subset(c, gen, pick(c, 900, 8000))
    ev = c.drive("stlmerge", cases=gen, name="gen", timeout=1500, shards=8)
    ev += c.drive("stlmerge", n=pick(c, 500, 8000), name="rnd", timeout=1500, shards=8)
    c.coverage["merges_from_spec"] = len(gen)
    c.validate("TraceMerge", ev, cfg="C17", timeout=1500)

def C25(c):
    parallel(lambda: c.tlc("StlMerge", workers=4), lambda: c.build(["merge-stl", "merge-binvox"]))
    ev = c.drive("mergetool", n=pick(c, 1200, 16000), timeout=1500, shards=8)
    c.validate("TraceMerge", ev, cfg="C25", timeout=1500)

# ---- meshes ---------------------------------------------------------------------
def C16(c):
    g1, g2, _, _ = parallel(lambda: c.tlc_cases("BlockMeshMC", "BlockMeshMC_gen", workers=2), lambda: c.tlc_cases("BlockMeshMC", "BlockMeshMC_gen2", workers=2),
                            lambda: c.tlc("BlockMeshMC", pick(c, "BlockMeshMC", "BlockMeshMC_deep"), workers=4, timeout=3000), lambda: c.build(["voxcut"]))
    gen = subset(c, g1 + g2, 1000)
    ev = c.drive("blockmesh", cases=gen, name="gen", timeout=900, shards=4)
    ev += c.drive("blockmesh", n=pick(c, 800, 16000), name="rnd", timeout=900, shards=8)
    c.coverage["models_from_spec"] = len(gen)
    c.validate("TraceMesh", ev, cfg="C16", timeout=3000)

def cells(c, what, cfg, tools):
    c.build(tools)
    ev = c.drive(what, cases=[{"c": k} for k in range(256)], name="table", timeout=300)
    if len(ev) == 256 and not any("died" in e for e in ev):
        tab = os.path.join(c.work, "table.ndjson")
        with open(tab, "w") as f:
            for e in sorted(ev, key=lambda e: e["c"]):
                f.write(json.dumps(e) + "\n")
        for k in range(256):
            for a in (1, 2, 3):
                for x in (-2, 2):
                    ev.append({"op": "face", "i": k, "c": k, "axis": a, "at": x, "key": "%d %s%s" % (k, "xyz"[a-1], "+" if x > 0 else "-")})
        ev += c.drive(what, n=pick(c, 400, 8000), name="rnd", timeout=900, shards=8)
    else:   # the verdict on the deaths
        tab, ev = "/dev/null", [e for e in ev if "died" in e]
    parallel(lambda: tab != "/dev/null" and c.tlc("CellsMC", pick(c, "CellsMC", "CellsMC_deep"), {"TABLE": tab}, timeout=3000, workers=4),
             lambda: c.validate("TraceCells", ev, cfg=cfg, env={"TABLE": tab}, timeout=3000))

def C14(c):
    cells(c, "manifold", "C14", ["manifold-mesh", "voxcut"])

def C15(c):
    cells(c, "marching", "C15", ["marching-cubes"])

# ---- the SVX service --------------------------------------------------------------
def svx(c, cfg):
    """Scripts from the specification and random ones against the real master; every log is judged, and must be a behaviour of Svx."""
    if c.thorough:
        designs = [lambda: c.tlc("SvxSym", "Svx_deep", timeout=3000), lambda: c.tlc("Svx", "Svx_livedeep", timeout=3000)]
    else:
        designs = [lambda: c.tlc("Svx", workers=3), lambda: c.tlc("Svx", "Svx_live", workers=3), lambda: c.tlc("Svx", "Svx_none", workers=2)]
    if c.thorough:
        designs.append(lambda: c.tlc("Svx", "Svx_none", workers=2))
    gen, _ = parallel(lambda: c.tlc_cases("SvxGen", pick(c, "SvxGen", "SvxGen_deep"), workers=4, timeout=3000), lambda: c.build(race=True))
    gen = subset(c, gen, pick(c, 480, 6000))
    r = random.Random(c.seed)
    for g in gen:
        g["Rush"] = r.random() < 0.4
    ev = []
    def drive():
        ev.extend(c.drive("svx", cases=gen, name="gen", timeout=3000, shards=24))
        ev.extend(c.drive("svx", n=pick(c, 240, 6000), name="rnd", timeout=3000, shards=24))
    parallel(drive, *designs)
    c.coverage["scripts_from_spec"] = len(gen)
    logs = [e for e in ev if e.get("op") == "svx" and not e.get("big")]   # (the others are judged by TraceSvx only)
    parallel(lambda: c.validate("TraceSvx", ev, cfg=cfg, timeout=1500), lambda: behaviours(c, logs))

def behaviours(c, logs):
    """Which logs are behaviours of the specification, with the steps that nobody sees added."""
    tf = os.path.join(c.work, "behaviours.ndjson")
    with open(tf, "w") as f:
        for e in logs:
            f.write(json.dumps(e) + "\n")
    out = c.tlc("TraceSvxB", env={"TRACE": tf}, timeout=3000, expect_ok=False)
    if "Model checking completed. No error" not in out:
        raise CheckError("TraceSvxB failed:\n" + out[-3000:])
    good = {int(l.split()[1].rstrip('"')) - 1 for l in out.splitlines() if l.startswith('"ACCEPT ')}
    for i, e in enumerate(logs):
        if i not in good:
            c.reject(e, "not a behaviour of the specification")
    c.coverage["logs_that_are_behaviours"] = len(good)

def C18(c):
    svx(c, "C18")

def C19(c):
    svx(c, "C19")

def C20(c):
    svx(c, "C20")

def C21(c):
    parallel(lambda: c.tlc("SliceMC", pick(c, "SliceMC", "SliceMC_deep"), workers=4, timeout=3000), c.build)
    ev = c.drive("slice", n=pick(c, 1600, 30000), timeout=1500, shards=8)
    c.validate("TraceSlice", ev, cfg="C21", timeout=3000)

def C22(c):
    designs = [lambda: c.tlc("RequestMC", workers=4)]
    if c.thorough:
        designs.append(lambda: c.tlc("RequestMC", "RequestMC_deep", timeout=3000))
    gen, *_ = parallel(lambda: c.tlc_cases("RequestGen", pick(c, "RequestGen", "RequestGen_deep"), workers=2, timeout=3000),
                       lambda: c.build(race=True), *designs)
    gen = subset(c, gen, pick(c, 2000, 20000))
    random.Random(c.seed).shuffle(gen)
    ev = c.drive("request", cases=[{"Reqs": gen[i:i + 8]} for i in range(0, len(gen), 8)], timeout=pick(c, 600, 3000), shards=8)
    c.coverage["requests_from_spec"] = len(gen)
    c.validate("TraceRequest", ev, cfg="C22", timeout=3000)

def table(c, what):
    """Records the surfaces of all configurations of a cell."""
    ev = c.drive(what, cases=[{"c": k} for k in range(256)], name="table", timeout=300)
    tab = os.path.join(c.work, "table.ndjson")
    with open(tab, "w") as f:
        for e in sorted(ev, key=lambda e: e.get("c", -1)):
            f.write(json.dumps(e) + "\n")
    return tab, [e for e in ev if "died" in e]

def C23(c):
    parallel(lambda: c.tlc("ArchiveMC", pick(c, "ArchiveMC", "ArchiveMC_deep"), workers=4, timeout=3000), lambda: c.build(["svx2stl"]))
    tab, dead = table(c, "marching")
    if dead:
        for e in dead:
            c.reject(e, "svx2stl cannot make the surface of a cell")
        return
    ev = c.drive("archive", n=pick(c, 240, 3000), timeout=1500, shards=8)
    ev += c.drive("convert", n=pick(c, 700, 12000), timeout=1500, shards=8)
    c.validate("TraceArchive", ev, cfg="C23", env={"TABLE": tab}, timeout=3000)

def C28(c):
    gen, *_ = parallel(lambda: c.tlc_cases("RemoteGen", pick(c, "RemoteGen", "RemoteGen_deep"), workers=2),
                       lambda: c.tlc("Remote", pick(c, "Remote", "Remote_deep"), workers=3, timeout=3000), lambda: c.build(server=True))
    gen = subset(c, gen, pick(c, 160, 3000))
    ev = c.drive("remote", cases=gen, timeout=pick(c, 600, 3000), shards=24)
    c.coverage["scripts_from_spec"] = len(gen)
    c.validate("TraceRemote", ev, cfg="C28", timeout=1500)

# ---- failing system calls ---------------------------------------------------------
def C29(c):
    parallel(lambda: c.tlc("FileIOMC", pick(c, "FileIOMC", "FileIOMC_deep")), lambda: c.build(CLIS))
    ev = c.drive("iofault", n=pick(c, 340, 8500), timeout=1500)
    c.validate("TraceIO", ev, cfg="C29", timeout=900)

# ---- models as data types ---------------------------------------------------------
def C30(c):
    gen, *_ = parallel(lambda: c.tlc_cases("ModelMC", "ModelMC_gen", workers=2),
                       lambda: c.tlc("ModelMC", pick(c, "ModelMC", "ModelMC_deep"), workers=4, timeout=3000), lambda: c.build())
    gen = subset(c, gen, pick(c, 4000, 30000))
    ev = c.drive("model", cases=gen, name="gen", timeout=1500, shards=8)
    ev += c.drive("model", n=pick(c, 1500, 30000), name="rnd", timeout=1500, shards=8)
    ev += c.drive("box", n=pick(c, 1500, 30000), timeout=1500, shards=8)
    c.coverage["histories_from_spec"] = len(gen)
    c.validate("TraceModel", ev, cfg="C30", timeout=3000)

# ---- designs that are wrong on purpose -----------------------------------------------
# The specifications of these must be refuted: the properties that TLC checks are not vacuous (thorough tier).
SVX = [("Svx", "Svx_" + x) for x in ("FailOnLoss", "FreeOnCancel", "KeepOnLoss", "LoseOnError", "NoCancel", "OneArchive")]
WRONG = {
    "C01": [("VoxelFile", "VoxelFile_limit_binvox"), ("VoxelFile", "VoxelFile_end_binvox")],
    "C03": [("VoxelFile", "VoxelFile_%s_%s" % (w, f)) for w in ("limit", "end") for f in ("binvox", "vshell")],
    "C04": [("FileWriteMC", "FileWriteMC_unflushed")],
    "C05": [("ShellMergeMC", "ShellMergeMC_still"), ("ShellMergeMC", "ShellMergeMC_stale"), ("ShellMergeMC", "ShellMergeMC_anew")],
    "C06": [("ShellMergeMC", "ShellMergeMC_still"), ("ShellMergeMC", "ShellMergeMC_stale")],
    "C07": [("VoxelFile", "VoxelFile_limit_vshell"), ("VoxelFile", "VoxelFile_end_vshell")],
    "C08": [("CutMC", "CutMC_unshifted")],
    "C11": [("VoxelizeMC", "VoxelizeMC_nolock")],
    "C13": [("DiceMC", "DiceMC_inplace")],
    "C16": [("BlockMeshMC", "BlockMeshMC_hasty")],
    "C17": [("StlMerge", "StlMerge_early"), ("StlMerge", "StlMerge_nolock")],
    "C18": SVX, "C19": SVX, "C20": SVX,
    "C21": [("SliceMC", "SliceMC_forgetful"), ("SliceMC", "SliceMC_norest")],
    "C22": [("RequestMC", "RequestMC_loose"), ("RequestMC", "RequestMC_dies")],
    "C23": [("ArchiveMC", "ArchiveMC_" + x) for x in ("percent", "xml", "four")],
    "C27": [("BinvoxDiceMC", "BinvoxDiceMC_dirty"), ("BinvoxDiceMC", "BinvoxDiceMC_order")],
    "C29": [("FileIOMC", "FileIOMC_" + x) for x in ("eof", "write", "close", "late")],
    "C30": [("ModelMC", "ModelMC_" + x) for x in ("shared", "recolor", "first")],
    "C28": [("Remote", "Remote_" + x) for x in ("IgnoreError", "Unreachable", "EarlyFile", "IgnoreFull")],
}

----------------------------- MODULE TraceDice -----------------------------
(* Runs of the real stldice, and of the scripts that it prints (C12, C13, C24).*)
EXTENDS Dice, Events
BM == INSTANCE BlockMesh

Abnormal(e) == IF e.exit = 99 THEN "crashed" ELSE IF e.exit = 98 THEN "hangs" ELSE ""

\* e.len: the size of the bounding box in 1/U voxels; e.div: the division; e.models: boxes of each model.
\* e.files: [m, r, pos (1/1000 voxel), pitch (ppm), n, vox] for each file that was found.
Refused(e) == \/ \E i \in 1..3 : e.div[i] < 1 \/ e.dim % e.div[i] # 0
              \/ \A g \in GridsOf(e) : \E i \in 1..3 : ~CanDivide(g[i], e.div[i])
MayRefuse(e) == \E g \in GridsOf(e) : \E i \in 1..3 : ~CanDivide(g[i], e.div[i])

Near1000(p) == (p + 500) \div 1000
Placed(f) == Abs(f.pitch - 1000000) <= 3 /\ \A i \in 1..3 : Abs(f.pos[i] - 1000 * Near1000(f.pos[i])) <= 5
Region(f) == [at |-> [i \in 1..3 |-> Near1000(f.pos[i])], n |-> f.n]
World(f) == LET a == Region(f).at IN {<<v[1] + a[1], v[2] + a[2], v[3] + a[3]>> : v \in SetOf(f.vox)}
Files(e) == SetOf(e.files)

\* The files of model m hold exactly its voxels, on a grid of g voxels.
ModelWhy(e, m, g) ==
    LET mine == {f \in Files(e) : f.m = m}
        all == TLCEval(UNION {World(f) : f \in mine})
    IN IF ~(all \subseteq May(g, e.models[m])) THEN "a voxel that the mesh does not reach"
       ELSE IF ~(Must(g, e.models[m]) \subseteq all) THEN "a voxel is missing" ELSE ""
FilesWhy(e) ==
    IF \E f \in Files(e) : Has(f, "bad") THEN "an unreadable region file"
    ELSE IF \E f \in Files(e) : ~Placed(f) THEN "a region with another resolution, or not in its place"
    ELSE IF \E f \in Files(e) : \E v \in SetOf(f.vox) : \E i \in 1..3 : v[i] < 0 \/ v[i] >= f.n[i] THEN "a voxel outside of its region"
    ELSE IF \E f, h \in Files(e) : f.r = h.r /\ Region(f) # Region(h) THEN "the same region is in different places for two models"
    ELSE IF \E f, h \in Files(e) : f.r # h.r /\ ~Disjoint(Region(f), Region(h)) THEN "two regions overlap"
    ELSE LET ok == {g \in GridsOf(e) : \A m \in DOMAIN e.models : ModelWhy(e, m, g) = ""}
         IN IF ok # {} THEN ""
            ELSE LET g == CHOOSE g \in GridsOf(e) : \A h \in GridsOf(e) : \A i \in 1..3 : g[i] <= h[i]
                     bad == {m \in DOMAIN e.models : ModelWhy(e, m, g) # ""}
                 IN IF bad = {} THEN "different grids for different models" ELSE ModelWhy(e, CHOOSE m \in bad : TRUE, g)

\* e.cuts: the voxcut commands [r, rs, out, files] (rs: the regions named by its input files), e.merge: [prefix, force].
ScriptWhy(e) ==
    LET full == {f.r : f \in {h \in Files(e) : h.m = 1 /\ h.vox # <<>>}}
        some == {e.cuts[i].r : i \in DOMAIN e.cuts}
    IN IF ~e.parsed THEN "the script has other commands"
       ELSE IF ~(full \subseteq some) THEN "a region of the base is not cut"
       ELSE IF Cardinality(some) # Len(e.cuts) THEN "a region is cut twice"
       ELSE IF \E i \in DOMAIN e.cuts : e.cuts[i].rs # [m \in DOMAIN e.models |-> e.cuts[i].r] THEN "a region is cut by other regions"
       ELSE IF Cardinality({e.cuts[i].out : i \in DOMAIN e.cuts}) # Len(e.cuts) THEN "two regions have the same output"
       ELSE IF Len(e.cuts) > 1 /\ Len(e.merges) # 1 THEN "the results are not merged"
       ELSE IF Len(e.cuts) > 1 /\ ~(e.merges[1].force /\ e.merges[1].all) THEN "the merge leaves out a result"
       ELSE IF Len(e.cuts) <= 1 /\ e.merges # <<>> THEN "nothing to merge, but merged" ELSE ""

VerdictC12(e) ==
    IF Abnormal(e) # "" THEN Abnormal(e)
    ELSE IF Refused(e) THEN IF e.exit = 0 THEN "accepted a division that is not possible" ELSE ""
    ELSE IF e.exit # 0 THEN IF MayRefuse(e) THEN "" ELSE "failed"
    ELSE LET w == FilesWhy(e) IN IF w # "" THEN w ELSE ScriptWhy(e)

-----------------------------------------------------------------------------
(* C13: `want' and `left' are directories, as sequences of <<name, digest>>.   *)
Names(d) == {d[i][1] : i \in DOMAIN d}
VerdictC13(e) ==
    LET want == SetOf(e.want)
        bad(k) == ~(SetOf(k.left) \subseteq want)
    IN IF \E i \in DOMAIN e.stops : bad(e.stops[i]) THEN "an interrupted run left a region file that is not complete"
       ELSE IF \E i \in DOMAIN e.stops : e.stops[i].exit = 0 /\ SetOf(e.stops[i].left) # want THEN "a run without an error did not write all regions"
       ELSE IF Abnormal(e) # "" THEN Abnormal(e)
       ELSE IF e.exit # 0 THEN "the next run fails"
       ELSE IF SetOf(e.got) # want THEN "the next run leaves other region files"
       ELSE IF e.script # e.wantScript THEN "the next run prints another script" ELSE ""

-----------------------------------------------------------------------------
(* C24: the mesh that the script makes, e.tris with corners in voxels.         *)
VerdictC24(e) ==
    IF Abnormal(e) # "" THEN Abnormal(e)
    ELSE IF Refused(e) \/ (e.exit # 0 /\ MayRefuse(e)) THEN "" ELSE IF e.exit # 0 THEN "failed"
    ELSE IF \E f \in Files(e) : Has(f, "bad") THEN "an unreadable region file"
    ELSE LET ok(g) ==
                 LET left == TLCEval(Must(g, e.models[1]) \ UNION {Must(g, e.models[m]) : m \in DOMAIN e.models \ {1}})
                     want == TLCEval(UNION {BM!Boundary({v \in left : InReg(Region(f), v)}) : f \in {h \in Files(e) : h.m = 1}})
                 IN IF \E v \in left : ~\E f \in Files(e) : f.m = 1 /\ InReg(Region(f), v) THEN "a voxel in no region"
                    ELSE IF want = {} THEN IF e.wrote /\ e.tris # <<>> THEN "a mesh, but nothing is left" ELSE ""
                    ELSE IF ~e.wrote THEN "no mesh" ELSE IF Has(e, "bad") THEN "malformed mesh"
                    ELSE IF ~e.on THEN "a corner that is not on the lattice of the voxels"
                    ELSE BM!CoverWhy(e.tris, want)
         IN IF \E g \in GridsOf(e) : ok(g) = "" THEN "" ELSE ok([i \in 1..3 |-> Ceil(e.len[i])])
=============================================================================

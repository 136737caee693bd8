------------------------------ MODULE TraceCut -----------------------------
(* What the specification of voxcut and voxcut-dice allows the real tools to   *)
(* do (C08, C09, C26).                                                         *)
EXTENDS Cut, Events

Cuts(e) == [i \in DOMAIN e.cuts |-> [off |-> e.cuts[i].off, vox |-> SetOf(e.cuts[i].vox)]]
Result(e) == Left(e.n, SetOf(e.base), Cuts(e), e.s, e.k)

\* The voxels of a written file on the grid of the base; {<<>>} if they are off the grid.
Written(p) ==
    LET q == [i \in 1..3 |-> (p.pos[i] + 500) \div 1000]
    IN IF (p.rvox # <<>> /\ Abs(p.pitch - 1000000) > 3) \/ \E i \in 1..3 : Abs(p.pos[i] - 1000 * q[i]) > 5 THEN {<<>>}
       ELSE {<<v[1] + q[1], v[2] + q[2], v[3] + q[3]>> : v \in SetOf(p.rvox)}

Abnormal(e) == IF e.exit = 99 THEN "crashed" ELSE IF e.exit = 98 THEN "hangs" ELSE ""

VerdictC08(e) ==
    LET left == Result(e) IN
    IF Abnormal(e) # "" THEN Abnormal(e)
    ELSE IF MustFail(left, e.cuts)
         THEN IF e.exit = 0 THEN "nothing is left, but no error" ELSE IF e.wrote THEN "nothing is left, but a file was written" ELSE ""
    ELSE IF e.exit # 0 THEN "failed"
    ELSE IF ~e.wrote THEN "no output" ELSE IF Has(e, "bad") THEN "malformed output"
    ELSE IF Written(e) # left THEN "not exactly the voxels that are left, at their place" ELSE ""

\* A .vox file: relative to the start of the section; up to 256 voxels along each axis.
VerdictC26(e) ==
    LET left == Result(e)
        rel == {Sub3(v, e.s) : v \in left}
        fits == \A v \in rel : v[1] < 256 /\ v[2] < 256 /\ v[3] < 256
    IN IF Abnormal(e) # "" THEN Abnormal(e)
       ELSE IF MustFail(left, e.cuts) \/ ~fits
            THEN IF e.exit = 0 THEN (IF fits THEN "nothing is left, but no error" ELSE "does not fit into the format, but no error") ELSE ""
       ELSE IF e.exit # 0 THEN "failed" ELSE IF ~e.wrote THEN "no output" ELSE VoxWhy(e.bytes, rel)

\* voxcut-dice.  A size larger than the model is refused.
VerdictDry(e) ==
    IF Abnormal(e) # "" THEN Abnormal(e)
    ELSE IF e.size > Max3(e.n) THEN (IF e.exit # 0 THEN "" ELSE "accepted a size larger than the model")
    ELSE IF e.exit # 0 THEN "failed" ELSE IF ~e.ok THEN "printed something else than voxcut commands"
    ELSE IF \E c \in SetOf(e.cmds) : c.files # e.files THEN "a command processes other files"
    ELSE IF \E c \in SetOf(e.cmds) : \E i \in 1..3 : c.k[i] > e.size THEN "a section is larger than the size"
    ELSE IF ~Tiles(e.n, [j \in DOMAIN e.cmds |-> [s |-> e.cmds[j].s, k |-> Count(e.n, e.cmds[j].k)]])
         THEN "the sections do not tile the model"
    ELSE IF \E c \in SetOf(e.cmds) : {o.kind : o \in SetOf(c.outs)} # SetOf(e.kinds) \/ Len(c.outs) # Len(e.kinds) \/ \E o \in SetOf(c.outs) : ~o.named
         THEN "a section does not write the requested outputs"
    ELSE IF Cardinality(UNION {{o.name : o \in SetOf(c.outs)} : c \in SetOf(e.cmds)}) # Len(e.cmds) * Len(e.kinds)
         THEN "two sections write the same file" ELSE ""
VerdictRun(e) ==
    LET stop == IF e.failAt > 0 /\ e.failAt <= Len(e.printed) THEN e.failAt ELSE Len(e.printed)
    IN IF Abnormal(e) # "" THEN Abnormal(e)
       ELSE IF e.ran # SubSeq(e.printed, 1, stop) THEN "executed other commands than it printed"
       ELSE IF (e.exit = 0) # (stop = Len(e.printed) /\ e.failAt # stop /\ ~e.oversize) THEN "wrong exit status" ELSE ""
VerdictReal(e) ==
    LET boxes == {<<x, y, z>> : x \in 0..(e.n[1]-1) \div e.size, y \in 0..(e.n[2]-1) \div e.size, z \in 0..(e.n[3]-1) \div e.size}
        left == Result(e)
        empty == Cardinality({<<v[1] \div e.size, v[2] \div e.size, v[3] \div e.size>> : v \in left}) # Cardinality(boxes)
    IN IF Abnormal(e) # "" THEN Abnormal(e)
       ELSE IF e.size > Max3(e.n) \/ (empty /\ e.cuts # <<>>) THEN (IF e.exit = 0 THEN "no error" ELSE "")
       ELSE IF e.exit # 0 THEN "failed"
       ELSE IF \E p \in SetOf(e.pieces) : Has(p, "bad") THEN "malformed piece"
       ELSE IF FoldLeft(LAMBDA a, p : a + Len(p.rvox), 0, e.pieces) # Cardinality(left) THEN "the pieces overlap or are incomplete"
       ELSE IF UNION {Written(p) : p \in SetOf(e.pieces)} # left \/ Len(e.pieces) # Cardinality(boxes) THEN "the pieces are not the whole" ELSE ""
VerdictC09(e) == CASE e.op = "dry" -> VerdictDry(e) [] e.op = "run" -> VerdictRun(e) [] e.op = "real" -> VerdictReal(e)
=============================================================================

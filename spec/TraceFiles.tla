---------------------------- MODULE TraceFiles -----------------------------
(* What the specification of the file formats allows the real readers and     *)
(* writers to do (C01, C02, C03, C07), and when a write may report success     *)
(* (C04).                                                                      *)
EXTENDS VoxelFormat, FileWrite, Events

SameHeader(e) == /\ e.rn = e.n /\ e.rt = e.t /\ e.rs = e.s

\* A grid without voxels may be written as an empty grid.
EmptyOk(e) == e.rt = e.t /\ e.rs = e.s /\ e.rvox = <<>> /\ (e.rn = e.n \/ e.rn = <<0, 0, 0>>)

\* The lists are in the same order, as a rule, which is faster to see for long ones.
SameVoxels(a, b) == a = b \/ SetOf(a) = SetOf(b)

\* C01: a binvox file is written and read back.
VerdictC01(e) ==
    IF e.err # "" THEN e.err
    ELSE IF ~e.same THEN "writing twice gives different files"
    ELSE IF ~e.unchanged THEN "writing changed the model"
    ELSE IF e.vox = <<>> THEN (IF EmptyOk(e) THEN "" ELSE "an empty model is not an empty grid at its place")
    ELSE IF ~SameHeader(e) THEN "header lost"
    ELSE IF ~SameVoxels(e.rvox, e.vox) THEN "voxels differ after reading back"
    ELSE IF ~e.raw THEN ""
    ELSE LET r == BinvoxRuns(Total(e.n), e.payload)
         IN IF ~r.ok THEN "the payload is malformed"
            ELSE IF r.at # Total(e.n) THEN "the payload does not cover the grid"
            ELSE IF RunVoxels(e.n, r.runs) # SetOf(e.vox) THEN "the payload does not encode the voxels" ELSE ""

\* C07: a shell file is written and read back.  Voxels are <<x, y, z, N>>.
WithBytes(s) == {<<v[1], v[2], v[3]>> \o Bytes4(v[4]) : v \in SetOf(s)}
VerdictC07(e) ==
    IF e.err # "" THEN e.err
    ELSE IF ~e.unchanged THEN "writing changed the shell"
    ELSE IF e.vox = <<>> THEN (IF EmptyOk(e) THEN "" ELSE "an empty shell is not an empty grid at its place")
    ELSE IF ~SameHeader(e) THEN "header lost"
    ELSE IF Len(e.rvox) # Len(e.vox) \/ ~SameVoxels(e.rvox, e.vox) THEN "voxels differ after reading back"
    ELSE IF ~e.raw THEN ""
    ELSE LET r == ShellRuns(Total(e.n), e.payload)
         IN IF ~r.ok THEN "the payload is malformed"
            ELSE IF r.at # Total(e.n) THEN "the payload does not cover the grid"
            ELSE IF RunShell(e.n, r.runs) # WithBytes(e.vox) THEN "the payload does not encode the voxels" ELSE ""

\* C02: sub-boxes.
Selected(e) == {v \in SetOf(e.vox) : InBox(e.n, e.s, e.k, v)}
Near(a, b, tol) == Abs(a - b) <= tol
\* A box that begins outside of the grid, or has a negative count, may be refused.
Odd(e) == \E i \in 1..3 : e.s[i] < 0 \/ e.s[i] >= e.n[i] \/ e.k[i] < 0
VerdictC02(e) ==
    IF e.err # "" THEN IF Odd(e) THEN "" ELSE "refused: " \o e.err
    ELSE IF e.op \in {"read", "vread"}
    THEN IF e.rn # e.n \/ e.rt # e.t \/ e.rs # e.sc THEN "reading a box changed the grid"
         ELSE IF ~NoDup(e.rvox) \/ SetOf(e.rvox) # Selected(e) THEN "not exactly the voxels in the box" ELSE ""
    ELSE IF ~BoxSizeOk(e.n, e.s, e.k, e.rn) THEN "the file does not have the size of the box"
    ELSE IF ~Near(e.pitch, 1000000, 3) THEN "the voxels have another size"
    ELSE LET q == [i \in 1..3 |-> (e.pos[i] + 500) \div 1000]   \* the place of the file's first voxel
             moved == {<<q[1] + v[1], q[2] + v[2], q[3] + v[3]>> \o SubSeq(v, 4, Len(v)) : v \in SetOf(e.rvox)}
         IN IF \E i \in 1..3 : ~Near(e.pos[i], 1000 * q[i], 3) THEN "the voxels are off the grid"
            ELSE IF ~NoDup(e.rvox) \/ moved # Selected(e) THEN "not exactly the voxels in the box, at their place" ELSE ""

\* C03: decoding any file.
VerdictC03(e) ==
    IF e.hdr # "good" THEN (IF e.err = "" THEN "accepted a malformed header: " \o e.hdr ELSE "")
    ELSE LET r == IF e.fmt = "binvox" THEN BinvoxRuns(Total(e.n), e.payload) ELSE ShellRuns(Total(e.n), e.payload)
         IN IF ~r.ok THEN (IF e.err = "" THEN "accepted a malformed payload" ELSE "")
            ELSE IF e.err # "" THEN (IF r.any THEN "" ELSE "refused a well-formed file: " \o e.err)
            ELSE IF ~SameHeader(e) THEN "header read wrongly"
            ELSE IF ~NoDup(e.rvox) THEN "a voxel twice"
            ELSE IF SetOf(e.rvox) # (IF e.fmt = "binvox" THEN RunVoxels(e.n, r.runs) ELSE RunShell(e.n, r.runs))
            THEN "decoded other voxels than the file encodes" ELSE ""

\* C04: writing where only the first bytes can be stored.
VerdictC04(e) ==
    IF e.op = "nowhere" THEN (IF MayReport(0, 1, e.err = "") THEN "" ELSE "reported success where nothing can be stored")
    ELSE IF e.err = "" /\ ~e.whole THEN "reported success, but the file is not complete"
    ELSE IF ~MayReport(Min2(e.limit, e.size), e.size, e.err = "") THEN "reported success, but storing failed"
    ELSE IF e.err # "" /\ e.limit >= e.size THEN "failed without a reason" ELSE ""
=============================================================================

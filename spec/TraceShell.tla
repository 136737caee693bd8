---------------------------- MODULE TraceShell -----------------------------
(* Behaviours of the real merge: sequences of steps, each with the model that  *)
(* was merged (its voxels on a common lattice) and the shell afterwards.       *)
EXTENDS ShellMerge, SequencesExt, Events

SetOf(s) == {s[i] : i \in DOMAIN s}
Abs(a) == IF a < 0 THEN -a ELSE a
Adds(e) == {i \in DOMAIN e.steps : e.steps[i].kind = "add"}
MergedAt(e, k) == UNION {SetOf(e.steps[i].add) : i \in {j \in Adds(e) : j <= k}}

\* The place of a shell's origin on the lattice, and how far it is off.
Place(s) == [i \in 1..3 |-> (s.pos[i] + 500) \div 1000]
World(s) == LET q == Place(s) IN {<<v[1] + q[1], v[2] + q[2], v[3] + q[3], v[4]>> : v \in SetOf(s.vox)}
Only3(S) == {<<v[1], v[2], v[3]>> : v \in S}

FirstBad(e, Bad(_)) ==
    LET b == {k \in DOMAIN e.steps : Bad(k) # ""} IN IF b = {} THEN "" ELSE "step " \o ToString(Min(b)) \o ": " \o Bad(Min(b))

\* C05: the shell and its neighbors.
StepC05(e, k) ==
    LET s == e.steps[k] IN
    IF s.kind # "add" THEN ""
    ELSE IF s.err # "" \/ ~Has(s, "vox") THEN "refused"
    ELSE IF Cardinality(Only3(SetOf(s.vox))) # Len(s.vox) THEN "a voxel is listed twice"
    ELSE LET want == ShellOf(MergedAt(e, k))  got == World(s)
         IN IF Only3(got) # Only3(want) THEN "not exactly the outer shell"
            ELSE IF got # want THEN "wrong neighbors" ELSE ""
VerdictC05(e) == LET Bad(k) == StepC05(e, k) IN FirstBad(e, Bad)

\* C06: places and resolution.  The lattice of the shell is the one of the
\* first model with voxels.
Anchor(e) == LET f == {i \in Adds(e) : e.steps[i].add # <<>>} IN IF f = {} THEN <<0, 0, 0>> ELSE e.steps[Min(f)].noise
StepC06(e, k) ==
    LET s == e.steps[k] IN
    IF s.kind # "add"
    THEN IF s.err = "" THEN "accepted: " \o s.kind ELSE IF ~s.unchanged THEN "changed by a refused model" ELSE ""
    ELSE IF s.err # "" \/ ~Has(s, "vox") THEN "refused"
    ELSE IF MergedAt(e, k) = {} THEN IF s.vox = <<>> THEN "" ELSE "voxels out of nothing"
    ELSE LET a == Anchor(e)
             off == [i \in 1..3 |-> s.pos[i] - a[i]]
             q == [i \in 1..3 |-> (off[i] + 500) \div 1000]
             got == {<<v[1] + q[1], v[2] + q[2], v[3] + q[3]>> : v \in SetOf(s.vox)}
         IN IF Abs(s.pitch - 1000000) > 3 THEN "the voxel size changed"
            ELSE IF \E i \in 1..3 : Abs(off[i] - 1000 * q[i]) > 5 THEN "the voxels of the shell moved"
            ELSE IF got # Only3(ShellOf(MergedAt(e, k))) THEN "voxels at wrong places"
            ELSE IF \E v \in SetOf(s.vox) : \E i \in 1..3 : v[i] < 0 \/ v[i] >= s.n[i] THEN "the grid does not cover the voxels"
            ELSE ""
VerdictC06(e) == LET Bad(k) == StepC06(e, k) IN FirstBad(e, Bad)
=============================================================================

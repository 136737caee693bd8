------------------------------- MODULE CutMC -------------------------------
(* Design of voxcut along one axis: it reads the section of the base, and of   *)
(* every cut only the part that lies over the section, and removes voxel by    *)
(* voxel, one cut after the other.  For all small bases, cuts, offsets and     *)
(* sections, in any order of the cuts, the result is what Left says; and       *)
(* sections of any size tile the axis, with results that add up to the whole.  *)
EXTENDS Cut, Json

CONSTANTS MaxN, MaxOff, NumCuts,
          Unshifted   \* a wrong design: the part of a cut is read as if it was not shifted

VARIABLES n, base, cuts,   \* the files
          s, k,            \* the section
          todo,            \* cuts not yet applied
          cur,             \* "read": not read yet, otherwise the voxels left
          done             \* "", "ok" or "fail"
vars == <<n, base, cuts, s, k, todo, cur, done>>

Line(m) == {<<x, 0, 0>> : x \in 0..m-1}
At(x) == <<x, 0, 0>>

Init == /\ \E m \in 1..MaxN : n = <<m, 1, 1>> /\ base \in SUBSET Line(m) /\ s \in {At(x) : x \in 0..m-1}
        /\ k \in {<<x, 0, 0>> : x \in 0..MaxN+1}
        /\ \E f \in [1..NumCuts -> [m : 1..MaxN, x : -MaxOff..MaxOff, V : SUBSET Line(MaxN)]] :
              /\ \A i \in 1..NumCuts : f[i].V \subseteq Line(f[i].m)
              /\ cuts = [i \in 1..NumCuts |-> [n |-> <<f[i].m, 1, 1>>, off |-> At(f[i].x), vox |-> f[i].V]]
        /\ todo = DOMAIN cuts /\ cur = {} /\ done = "read"

ReadBase == /\ done = "read" /\ cur' = Section(n, base, s, k) /\ done' = ""
            /\ UNCHANGED <<n, base, cuts, s, k, todo>>

\* Only the part of the cut over the section is read.
Part(c) == LET o == IF Unshifted THEN 0 ELSE c.off[1]
               lo == Max2(s[1] - o, 0)
               hi == Min2(s[1] + Count(n, k)[1] - o, c.n[1])
           IN {v \in c.vox : lo <= v[1] /\ v[1] < hi}
Apply == /\ done = "" /\ todo # {}
         /\ \E i \in todo :
              LET left == {v \in cur : Sub3(v, cuts[i].off) \notin Part(cuts[i])}
              IN /\ cur' = left /\ todo' = todo \ {i}
                 /\ done' = IF left = {} THEN "fail" ELSE ""
         /\ UNCHANGED <<n, base, cuts, s, k>>
Write == /\ done = "" /\ todo = {} /\ done' = "ok"
         /\ UNCHANGED <<n, base, cuts, s, k, todo, cur>>
Next == ReadBase \/ Apply \/ Write
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Exact == /\ done = "ok" => cur = Left(n, base, cuts, s, k) /\ ~MustFail(cur, cuts)
         /\ done = "fail" => MustFail(Left(n, base, cuts, s, k), cuts)
Ends == <>(done \in {"ok", "fail"})

\* Sections of every size tile the axis and give the same as the whole.
Sizes == 1..MaxN+1
Boxes(size) == [j \in 1..((n[1] + size - 1) \div size) |-> [s |-> At((j-1) * size), k |-> <<size, 1, 1>>]]
Diced == done = "read" => \A size \in Sizes :
            /\ Tiles(n, Boxes(size))
            /\ UNION {Left(n, base, cuts, Boxes(size)[j].s, Boxes(size)[j].k) : j \in DOMAIN Boxes(size)}
                 = Left(n, base, cuts, At(0), <<0, 0, 0>>)

Emit == IF done = "read"
        THEN PrintT("CASE " \o ToJson([n |-> n, base |-> base, cuts |-> cuts, s |-> s, k |-> k])) /\ FALSE ELSE TRUE
=============================================================================

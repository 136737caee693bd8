------------------------------ MODULE CellsMC ------------------------------
(* A model that grows voxel by voxel, and the surface that the real code's     *)
(* table of cells makes of it: at every step, wherever two cells meet, their   *)
(* boundaries cancel, so that the surface is closed - but for the faulty cells *)
(* of the table, which are reported one by one by the trace specification.     *)
EXTENDS CellTable
CONSTANT Box
VARIABLE vox
Index(n, v) == (v[1] * n[2] + v[2]) * n[3] + v[3]
Init == vox = {}
Grow == \E v \in Voxels(Box) \ vox : (\A w \in vox : Index(Box, w) < Index(Box, v)) /\ vox' = vox \cup {v}   \* (in one order: every set once)
Spec == Init /\ [][Grow]_vox
Slab == <<3, 2, 2>>
Wide == <<3, 3, 2>>
Where == {<<x, y, z>> : x \in -1..Box[1]-1, y \in -1..Box[2]-1, z \in -1..Box[3]-1}
Closed == LET conf == TLCEval([v \in Where |-> CellAt(vox, v)])
          IN \A v \in Where : conf[v] \notin Faulty => \A a \in 1..3 :
                LET w == [v EXCEPT ![a] = @ + 1] IN
                w \in Where /\ conf[w] \notin Faulty => Bound[<<conf[v], a, 2>>] = Bound[<<conf[w], a, -2>>]
=============================================================================

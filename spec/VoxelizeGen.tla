----------------------------- MODULE VoxelizeGen ---------------------------
(* Solids for the real code: cells of a grid of uneven lines, so that there    *)
(* are walls and gaps thinner than a voxel, which meet and touch in all ways.  *)
EXTENDS Voxelize, Json

CONSTANTS XLines, YLines    \* sequences of lines
VARIABLE c
Init == \E xs \in XLines, ys \in YLines, occ \in SUBSET ((0..2) \X (0..1)) :
            occ # {} /\ c = [xs |-> xs, ys |-> ys, occ |-> occ]
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Emit == PrintT("CASE " \o ToJson(c)) /\ FALSE
SomeX == {<<-9, 3, 5, 14>>, <<1, 3, 5, 7>>, <<2, 6, 11, 21>>, <<3, 12, 14, 30>>, <<5, 9, 11, 50>>, <<10, 19, 31, 33>>, <<1, 20, 22, 25>>, <<-30, -20, 1, 6>>}
SomeY == {<<-3, 5, 7>>, <<1, 3, 18>>, <<2, 15, 29>>, <<9, 20, 23>>, <<30, 31, 44>>}
=============================================================================

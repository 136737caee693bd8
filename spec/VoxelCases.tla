---------------------------- MODULE VoxelCases -----------------------------
(* Test cases for the real code, from the behaviours of VoxelFile: every file  *)
(* that its encoder and its faults can produce, and every model.               *)
EXTENDS VoxelFile, Json

Case(r) == PrintT("CASE " \o ToJson(r))

\* Constraint for decoding cases: stop where the decoder opens the file.
EmitFiles == IF ph = "wait" THEN TRUE
             ELSE Case([fmt |-> Fmt, n |-> n, hdr |-> "good", payload |-> wire]) /\ FALSE

\* Constraint for writing cases: stop at the model.  Shell voxels have a fourth
\* component, their neighbor set.
EmitModels ==
    LET f == {p \in DOMAIN model : model[p] # 0}
        v(p) == IF Fmt = "binvox" THEN Cell(n, p) ELSE Append(Cell(n, p), IF model[p] = 1 THEN 1 ELSE 0)
    IN Case([n |-> n, vox |-> SetToSeq({v(p) : p \in f})]) /\ FALSE

ModelGrids == {<<1, 1, 1>>, <<2, 2, 2>>, <<1, 2, 3>>, <<1, 3, 2>>, <<2, 1, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<3, 2, 1>>,
               <<1, 1, 7>>, <<1, 7, 1>>, <<7, 1, 1>>, <<2, 2, 1>>, <<2, 1, 2>>, <<1, 2, 2>>}
DeepModelGrids == ModelGrids \cup {<<2, 5, 1>>, <<5, 1, 2>>, <<1, 2, 5>>, <<1, 3, 3>>, <<3, 1, 3>>, <<3, 3, 1>>, <<2, 3, 2>>}
ShellModelGrids == {<<1, 1, 1>>, <<2, 2, 1>>, <<2, 1, 2>>, <<1, 2, 2>>, <<1, 2, 3>>, <<3, 2, 1>>}
DeepShellModelGrids == ShellModelGrids \cup {<<1, 7, 1>>, <<1, 1, 7>>, <<7, 1, 1>>, <<2, 2, 2>>}
=============================================================================

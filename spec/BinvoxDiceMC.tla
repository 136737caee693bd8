---------------------------- MODULE BinvoxDiceMC ----------------------------
(* Design of the script: for one box after the other, binvox is run on every   *)
(* model, and then voxcut on the pieces, whose names the script foresees.      *)
(* TLC checks for all divisions and numbers of models that every voxcut gets   *)
(* the pieces of its own box, and that no piece or output is overwritten.      *)
EXTENDS BinvoxDice
CONSTANTS MaxF, MaxModels,
          Dirty,      \* the directory may have files of an earlier run
          PerModel    \* a design that voxelizes model by model, with the boxes in the order of the planes of its first axis

VARIABLES f, models, order,
          files,      \* files[m]: for each piece of m in the order of writing, its box
          step,       \* number of boxes done
          m,          \* next model of this box; models+1: voxcut
          outs        \* the boxes of the pieces of each voxcut
vars == <<f, models, order, files, step, m, outs>>

Total3 == f[1] * f[2] * f[3]
Old == << <<0, 0>>, <<0, 0>>, <<0, 0>> >>   \* a piece of an earlier run: no box of this one
BoxAt(n) == LET i == n % f[1]  j == (n \div f[1]) % f[2]  k == n \div (f[1] * f[2])
            IN << <<i, i + 1>>, <<j, j + 1>>, <<k, k + 1>> >>
Other(n) == LET k == n % f[3]  j == (n \div f[3]) % f[2]  i == n \div (f[3] * f[2])
            IN << <<i, i + 1>>, <<j, j + 1>>, <<k, k + 1>> >>

Init == /\ f \in (1..MaxF) \X (1..MaxF) \X (1..MaxF) /\ models \in 1..MaxModels
        /\ order \in (IF PerModel THEN {"one", "other"} ELSE {"one"})
        /\ files \in [1..models -> IF Dirty THEN {<<>>, <<Old>>} ELSE {<<>>}]
        /\ step = 0 /\ m = 1 /\ outs = <<>>
Binvox == /\ step < Total3 /\ m <= models
          /\ files' = [files EXCEPT ![m] = Append(@, IF order = "other" /\ m > 1 THEN Other(step) ELSE BoxAt(step))]
          /\ m' = m + 1 /\ UNCHANGED <<f, models, order, step, outs>>
Voxcut == /\ step < Total3 /\ m > models
          /\ outs' = Append(outs, [i \in 1..models |-> files[i][step + 1]])   \* the name with the suffix for `step'
          /\ step' = step + 1 /\ m' = 1 /\ UNCHANGED <<f, models, order, files>>
Next == Binvox \/ Voxcut
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

OwnPieces == \A i \in DOMAIN outs : \A j \in 1..models : outs[i][j] = BoxAt(i - 1)
Tiled == step = Total3 => {outs[i][1] : i \in DOMAIN outs} = Boxes(f) /\ Len(outs) = Cardinality(Boxes(f))
Ends == <>(step = Total3)
=============================================================================

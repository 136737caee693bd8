------------------------------- MODULE DiceMC ------------------------------
(* Design of stldice as a process that may be interrupted at any step and is   *)
(* then run again: the regions of each model in turn are skipped when their    *)
(* file exists, are written to a temporary file piece by piece, and get their  *)
(* name by a rename.  InPlace: without the temporary file (then a partial file *)
(* is taken for a complete one; TLC finds the history).                        *)
EXTENDS Dice
CONSTANTS Width, Div, Models, Pieces, Crashes, InPlace
VARIABLES solid,    \* the voxels (along one axis) of each model
          file,     \* file[m][r] : pieces of the file with the final name, -1 = none
          temp,     \* the same for the temporary file
          pc,       \* <<m, r, "look" | "write" | "name">>, or <<>> when not running
          listed,   \* the regions that this run will name in the script
          crashes, script
vars == <<solid, file, temp, pc, listed, crashes, script>>
Reg == 0..Div-1
Inside(r) == {v \in 0..Width-1 : Part(Width, Div, r)[1] <= v /\ v < Part(Width, Div, r)[2]}
Has(m, r) == solid[m] \cap Inside(r) # {}
Init == /\ solid \in [1..Models -> SUBSET (0..Width-1)]
        /\ file = [m \in 1..Models |-> [r \in Reg |-> -1]] /\ temp = file
        /\ pc = <<1, 0, "look">> /\ listed = {} /\ crashes = 0 /\ script = <<>>
Next1(m, r) == IF r < Div - 1 THEN <<m, r + 1, "look">> ELSE IF m < Models THEN <<m + 1, 0, "look">> ELSE <<"print">>
Look == /\ Len(pc) = 3 /\ pc[3] = "look"
        /\ LET m == pc[1] r == pc[2] IN
           IF file[m][r] >= 0 THEN pc' = Next1(m, r) /\ listed' = listed \cup {r} /\ UNCHANGED <<file, temp>>
           ELSE IF ~Has(m, r) THEN pc' = Next1(m, r) /\ UNCHANGED <<file, temp, listed>>
           ELSE /\ pc' = <<m, r, "write">> /\ UNCHANGED listed
                /\ IF InPlace THEN file' = [file EXCEPT ![m][r] = 0] /\ UNCHANGED temp
                   ELSE temp' = [temp EXCEPT ![m][r] = 0] /\ UNCHANGED file
        /\ UNCHANGED <<solid, crashes, script>>
Write == /\ Len(pc) = 3 /\ pc[3] = "write"
         /\ LET m == pc[1] r == pc[2] cur == IF InPlace THEN file[m][r] ELSE temp[m][r] IN
            IF cur < Pieces
            THEN /\ UNCHANGED <<pc, listed>>
                 /\ IF InPlace THEN file' = [file EXCEPT ![m][r] = @ + 1] /\ UNCHANGED temp
                    ELSE temp' = [temp EXCEPT ![m][r] = @ + 1] /\ UNCHANGED file
            ELSE IF InPlace THEN pc' = Next1(m, r) /\ listed' = listed \cup {r} /\ UNCHANGED <<file, temp>>
            ELSE pc' = <<m, r, "name">> /\ UNCHANGED <<file, temp, listed>>
         /\ UNCHANGED <<solid, crashes, script>>
Name == /\ Len(pc) = 3 /\ pc[3] = "name"
        /\ LET m == pc[1] r == pc[2] IN
           /\ file' = [file EXCEPT ![m][r] = temp[m][r]] /\ temp' = [temp EXCEPT ![m][r] = -1]
           /\ pc' = Next1(m, r) /\ listed' = listed \cup {r}
        /\ UNCHANGED <<solid, crashes, script>>
PrintScript == /\ pc = <<"print">> /\ script' = <<listed>> /\ pc' = <<>> /\ UNCHANGED <<solid, file, temp, listed, crashes>>
Crash == /\ pc # <<>> /\ crashes < Crashes /\ crashes' = crashes + 1
         /\ pc' = <<1, 0, "look">> /\ listed' = {} /\ UNCHANGED <<solid, file, temp, script>>     \* and it is run again
Next == Look \/ Write \/ Name \/ PrintScript \/ Crash
Spec == Init /\ [][Next]_vars /\ WF_vars(Look \/ Write \/ Name \/ PrintScript)

\* C13
NamedIsComplete == \A m \in 1..Models, r \in Reg : file[m][r] \in {-1, Pieces}
Final == script # <<>> => /\ \A m \in 1..Models, r \in Reg : file[m][r] = IF Has(m, r) THEN Pieces ELSE -1
                          /\ script[1] = {r \in Reg : \E m \in 1..Models : Has(m, r)}
Ends == <>(script # <<>>)
\* C12: the regions tile the axis, for every number of voxels and every division that is possible.
ASSUME \A m \in 1..40, n \in 1..12 : CanDivide(m, n) =>
          /\ Part(m, n, 0)[1] = 0 /\ Part(m, n, n - 1)[2] = m
          /\ \A k \in 0..n-1 : Part(m, n, k)[1] < Part(m, n, k)[2] /\ (k > 0 => Part(m, n, k)[1] = Part(m, n, k - 1)[2])
=============================================================================

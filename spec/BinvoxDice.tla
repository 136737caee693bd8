----------------------------- MODULE BinvoxDice -----------------------------
(* binvox-dice: a bounding box is divided into f[1] x f[2] x f[3] boxes; every *)
(* model is voxelized in each of them by binvox, which names its output after  *)
(* the model and the number of its earlier outputs; and the pieces of the base *)
(* are cut by the pieces of the other models in the same box.                  *)
(* A box is a triple of intervals <<i, j>> between the planes i and j of its   *)
(* axis; the planes are numbered from 0.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Boxes(f) == {<< <<i, i + 1>>, <<j, j + 1>>, <<k, k + 1>> >> : i \in 0..f[1]-1, j \in 0..f[2]-1, k \in 0..f[3]-1}

\* The planes q (in millionths of the extent) divide an axis evenly into n intervals.
Even(q, n) == Len(q) = n + 1 /\ \A i \in 1..n+1 : q[i] - ((i - 1) * 1000000) \div n \in {0-2, 0-1, 0, 1, 2}

=============================================================================

------------------------------- MODULE Model -------------------------------
(* Voxel models as data types: what a model holds after a history of additions *)
(* to several models, and the box that its grid spans.                         *)
(* A step of a history is a record: the model m, the operation ("add" a white  *)
(* voxel, "color" a voxel), the voxel v, and the color c (0 for white).        *)
EXTENDS Integers, Sequences, FiniteSets

None == -1
White == 0
\* The step that decides about the color of voxel v of model m: 0 if there is none.
Last(h, m, v, op) == LET k == {i \in DOMAIN h : h[i].m = m /\ h[i].v = v /\ h[i].op = op}
                     IN IF k = {} THEN 0 ELSE CHOOSE i \in k : \A j \in k : j <= i
\* What is at voxel v of model m: white once it has been added, else its last color.
At(h, m, v) == IF Last(h, m, v, "add") > 0 THEN White
               ELSE LET k == Last(h, m, v, "color") IN IF k = 0 THEN None ELSE h[k].c

\* The largest size of a grid.
Largest(n) == IF n[1] >= n[2] /\ n[1] >= n[3] THEN n[1] ELSE IF n[2] >= n[3] THEN n[2] ELSE n[3]
=============================================================================

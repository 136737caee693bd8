----------------------------- MODULE TraceModel ----------------------------
(* What the models of the real code hold after a history, and the boxes of     *)
(* models and shells (C30).                                                    *)
EXTENDS Model, Events

\* got[m][i] is what is at place i of model m after the step.
HistoryWhy(e) ==
    LET h == e.steps
        wrong(k) == LET past == SubSeq(h, 1, k)
                    IN \E m \in DOMAIN e.got[k], i \in DOMAIN e.places : e.got[k][m][i] # At(past, m, e.places[i])
    IN IF e.err # "" THEN "failed"
       ELSE IF \E k \in DOMAIN h : wrong(k) THEN "a model holds something else than what has been put into it" ELSE ""

\* Places are in 1/1000 of a voxel; the resolution is relative to the right one, in 1/1000.
BoxUnit == 1000
Close(a, b) == a - b \in -1..1
BoxWhy(e) ==
    IF e.dim # Largest(e.n) THEN "not the largest size of the grid"
    ELSE IF ~Close(e.res, BoxUnit) THEN "another resolution"
    ELSE IF \E i \in 1..3 : ~Close(e.lo[i], BoxUnit * e.at[i]) THEN "a box that does not begin at the model"
    ELSE IF \E i \in 1..3 : ~Close(e.hi[i], BoxUnit * (e.at[i] + e.n[i])) THEN "a box that does not end with the model"
    ELSE ""
VerdictC30(e) == CASE e.op = "history" -> HistoryWhy(e) [] e.op = "box" -> BoxWhy(e)
=============================================================================

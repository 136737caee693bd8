---------------------------- MODULE TraceRequest ----------------------------
(* What the real service answers to requests, sound or not (C22).              *)
EXTENDS TraceSlice, Request
ImagesWhy(e, g) ==
    IF e.base \in UpToIt \/ \E i \in DOMAIN e.cuts : e.cuts[i] = "huge" THEN ""
    ELSE IF Len(e.imgs) # (IF e.to = "master" THEN g[3] ELSE 1) THEN "not all layers"
    ELSE LET Why(im) == OneWhy([op |-> "boxes", z |-> im.z, models |-> e.models], g, im)
             wrong == {i \in DOMAIN e.imgs : Why(e.imgs[i]) # ""}
         IN IF wrong = {} THEN "" ELSE Why(e.imgs[CHOOSE i \in wrong : TRUE])
RequestWhy(e, g) ==
    LET fate == Fate(e, g) IN
    IF ~e.answered THEN "no answer"
    ELSE IF e.ok THEN IF fate = "refuse" THEN "served an unsound request" ELSE ImagesWhy(e, g)
    ELSE IF fate = "serve" THEN "refused a sound request"
    ELSE IF e.err = "" THEN "refused without an error" ELSE ""
VerdictC22(e) == IF e.op = "race" THEN "data race"
                 ELSE IF \E g \in GridsOf(e) : RequestWhy(e, g) = "" THEN "" ELSE RequestWhy(e, [i \in 1..3 |-> Ceil(e.len[i])])
=============================================================================

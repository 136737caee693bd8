----------------------------- MODULE TraceSlice ----------------------------
(* The images that the real agent makes of layer e.z of a model, for several   *)
(* divisions of it (C21).                                                      *)
EXTENDS Slice, Events

Vox(g, im) == {<<p[1] - 1, g[2] - p[2]>> : p \in SetOf(im.white)}     \* the voxels of the white pixels, in the layer
OneWhy(e, g, im) ==
    LET got == {<<p[1], p[2], e.z>> : p \in Vox(g, im)}
        n == <<g[1], g[2], g[3]>>
    IN IF ~im.ok THEN "failed"
       ELSE IF im.gray THEN "pixels that are not black or white"
       ELSE IF <<im.w, im.h>> # Size(g) THEN "an image of the wrong size"
       ELSE IF \E p \in SetOf(im.white) : p[1] < 1 \/ p[1] > g[1] \/ p[2] < 1 \/ p[2] > g[2] THEN "a white border"
       ELSE IF e.op = "boxes" THEN
            LET cutMay == UNION {MayAt(n, e.models[i], e.z) : i \in DOMAIN e.models \ {1}}
                cutMust == UNION {MustAt(n, e.models[i], e.z) : i \in DOMAIN e.models \ {1}}
            IN IF ~(got \subseteq MayAt(n, e.models[1], e.z)) THEN "a pixel that the base does not reach"
               ELSE IF got \cap cutMust # {} THEN "a pixel that is cut away"
               ELSE IF ~((MustAt(n, e.models[1], e.z) \ cutMay) \subseteq got) THEN "a pixel is missing" ELSE ""
       ELSE IF \E i \in DOMAIN e.bodies : ~Convex(e.bodies[i].tris) THEN "the driver is wrong: not convex"
       ELSE BodiesWhy(n, e.bodies, got, {e.z})
Possible(g, d) == \A i \in 1..3 : d[i] >= 1 /\ CanDivide(g[i], d[i])
GridWhy(e, g) ==
    LET ims == {i \in DOMAIN e.imgs : Possible(g, e.imgs[i].div)} IN
    IF \E i \in DOMAIN e.imgs \ ims : e.imgs[i].ok THEN "accepted a division that is not possible"
    ELSE IF \E i \in ims : OneWhy(e, g, e.imgs[i]) # "" THEN OneWhy(e, g, e.imgs[CHOOSE i \in ims : OneWhy(e, g, e.imgs[i]) # ""])
    ELSE ""
\* Images of different divisions are the same, except for voxels that a model only touches, which is up to the rounding.
Touched(e, g) == UNION {{Pixel(g, v) : v \in {u \in May(g, e.models[i]) \ Must(g, e.models[i]) : u[3] = e.z}} : i \in DOMAIN e.models}
DiffWhy(e, g) ==
    LET ims == {i \in DOMAIN e.imgs : e.imgs[i].ok}
        some == UNION {SetOf(e.imgs[i].white) : i \in ims}
        diff == {p \in some : \E i \in ims : p \notin SetOf(e.imgs[i].white)}
    IN IF diff = {} \/ e.op = "bodies" THEN ""
       ELSE IF e.op = "boxes" /\ diff \subseteq Touched(e, g) THEN "" ELSE "the image depends on the division"
\* A model without known contents.
GenericWhy(e) ==
    LET ims == {i \in DOMAIN e.imgs : e.imgs[i].ok} IN
    IF 1 \notin ims THEN "failed"
    ELSE IF \E i \in ims : e.imgs[i].gray \/ e.imgs[i].w # e.imgs[1].w \/ e.imgs[i].h # e.imgs[1].h THEN "an image of the wrong size"
    ELSE IF \E p \in SetOf(e.imgs[1].white) : p[1] < 1 \/ p[1] > e.imgs[1].w - 2 \/ p[2] < 1 \/ p[2] > e.imgs[1].h - 2 THEN "a white border"
    ELSE DiffWhy(e, <<>>)
BothWhy(e, g) == LET why == GridWhy(e, g) IN IF why # "" THEN why ELSE DiffWhy(e, g)
VerdictC21(e) == IF e.op = "generic" THEN GenericWhy(e)
                 ELSE IF \E g \in GridsOf(e) : e.z < g[3] /\ BothWhy(e, g) = "" THEN "" ELSE BothWhy(e, [i \in 1..3 |-> Ceil(e.len[i])])
=============================================================================

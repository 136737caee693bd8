------------------------------ MODULE Request ------------------------------
(* Which requests the SVX service has to serve, which ones it has to refuse,   *)
(* and which ones are up to it.                                                *)
(* A request has a base and cutting models, each of one of the kinds below,    *)
(* a resolution dim, a division into regions, and (for an agent) a layer z.    *)
EXTENDS Slice

Broken == {"nil1", "nil2", "nil3", "nan", "inf", "-inf"}       \* a vertex is missing or not finite
BadBase == Broken \cup {"none", "empty", "flat", "point"}      \* no file, no triangle, or no volume
Optional == {"huge", "empty"}                                  \* of cutting models; a huge base, too
UpToIt == {"huge", "tiny"}                                     \* of bases
Far == 1000000000                                              \* far out of reach

\* To be refused whatever the grid is, and by a master that has no agents, too.
Hopeless(r) ==
    \/ r.base \in BadBase
    \/ \E i \in DOMAIN r.cuts : r.cuts[i] \in Broken
    \/ r.dim < 1 \/ r.dim >= Far
    \/ \E i \in 1..3 : r.div[i] < 1
\* g is the grid of the base at the resolution.
Fate(r, g) ==
    IF Hopeless(r) THEN "refuse"
    ELSE IF r.base \in UpToIt THEN "either"
    ELSE IF \/ \E i \in 1..3 : ~CanDivide(g[i], r.div[i])
            \/ r.to = "agent" /\ (r.z < 0 \/ r.z >= g[3])
    THEN "refuse"
    ELSE IF \E i \in DOMAIN r.cuts : r.cuts[i] \in Optional THEN "either"
    ELSE "serve"
=============================================================================

------------------------------ MODULE ModelMC ------------------------------
(* Models as maps: every model has a map of white voxels and a map of colors.  *)
(* TLC checks for all histories that looking into the maps gives what the      *)
(* history says, and emits the histories for the real code.                    *)
EXTENDS Model, TLC, Json
CONSTANTS Models, Voxels, Colors, Steps,
          Wrong     \* a wrong design: "shared" (models share their maps), "recolor" (a color replaces white),
                    \* "first" (the first color stays), or "no"
VARIABLES white, color, hist
vars == <<white, color, hist>>
Store(m) == IF Wrong = "shared" THEN CHOOSE s \in Models : TRUE ELSE m
Init == /\ white = [m \in Models |-> {}]
        /\ color = [m \in Models |-> [v \in Voxels |-> None]]
        /\ hist = <<>>
Add(m, v) == /\ white' = [white EXCEPT ![Store(m)] = @ \cup {v}]
             /\ UNCHANGED color
             /\ hist' = Append(hist, [m |-> m, op |-> "add", v |-> v, c |-> White])
Paint(m, v, c) == /\ IF Wrong = "first" /\ color[Store(m)][v] # None THEN UNCHANGED color
                     ELSE color' = [color EXCEPT ![Store(m)][v] = c]
                  /\ IF Wrong = "recolor" THEN white' = [white EXCEPT ![Store(m)] = @ \ {v}] ELSE UNCHANGED white
                  /\ hist' = Append(hist, [m |-> m, op |-> "color", v |-> v, c |-> c])
Next == /\ Len(hist) < Steps
        /\ \E m \in Models, v \in Voxels : Add(m, v) \/ \E c \in Colors : Paint(m, v, c)
Spec == Init /\ [][Next]_vars
Get(m, v) == IF v \in white[Store(m)] THEN White ELSE color[Store(m)][v]
Holds == \A m \in Models, v \in Voxels : Get(m, v) = At(hist, m, v)
Emit == Len(hist) < Steps \/ PrintT("CASE " \o ToJson(hist))
=============================================================================

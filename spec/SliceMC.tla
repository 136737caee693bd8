------------------------------ MODULE SliceMC ------------------------------
(* The agent's way to the image: the voxels of the layer come out of the       *)
(* regions, model by model, in any order; a pixel is white as long as only     *)
(* voxels of the base have come. TLC checks that the image is the right one    *)
(* in the end, for every order, division and choice of voxels.                 *)
EXTENDS Slice
CONSTANTS Grids, MaxDiv, Forgetful, NoRest   \* wrong designs: the base makes a pixel white again; the remainder of a division is left out
VARIABLES g, div, base, cut, todo, pix
vars == <<g, div, base, cut, todo, pix>>
Z == 0
LayerOf(h) == {v \in Voxels(h) : v[3] = Z}
Divs(h) == {d \in (1..MaxDiv) \X (1..MaxDiv) \X {1} : \A i \in 1..3 : CanDivide(h[i], d[i])}
Covered(h, d, v) == ~NoRest \/ \A i \in 1..2 : v[i] < d[i] * (h[i] \div d[i])
Init == /\ g \in Grids /\ div \in Divs(g)
        /\ base \in SUBSET LayerOf(g) /\ cut \in SUBSET LayerOf(g)
        /\ todo = {<<TRUE, v>> : v \in {u \in base : Covered(g, div, u)}} \cup {<<FALSE, v>> : v \in {u \in cut : Covered(g, div, u)}}
        /\ pix = [p \in {} |-> TRUE]
Take(m) == LET p == Pixel(g, m[2]) IN
           /\ todo' = todo \ {m}
           /\ pix' = [q \in DOMAIN pix \cup {p} |-> IF q # p THEN pix[q] ELSE IF p \in DOMAIN pix /\ ~Forgetful THEN pix[p] /\ m[1] ELSE m[1]]
           /\ UNCHANGED <<g, div, base, cut>>
Next == \E m \in todo : Take(m)
Spec == Init /\ [][Next]_vars
Right == todo = {} => {p \in DOMAIN pix : pix[p]} = White(g, base, cut, Z)
Framed == \A p \in DOMAIN pix : 1 <= p[1] /\ p[1] <= g[1] /\ 1 <= p[2] /\ p[2] <= g[2]
\* Every voxel lies in exactly one region.
Tiled == \A v \in LayerOf(g) : RegionOf(g, div, v)[1] \in 0..div[1]-1 /\ RegionOf(g, div, v)[2] \in 0..div[2]-1

Grids_SliceMC == {<<2,2,1>>,<<3,1,1>>}
Grids_SliceMC_deep == {<<2,2,1>>,<<3,1,1>>,<<3,2,1>>,<<5,1,1>>,<<1,4,1>>}
Grids_SliceMC_forgetful == {<<2,2,1>>}
Grids_SliceMC_norest == {<<3,1,1>>}
=============================================================================

---------------------------- MODULE BlockMeshMC ----------------------------
(* Design of the block mesh: starting from the unit faces of the voxels,       *)
(* rectangles are taken out of each plane in any order until none is left.     *)
(* The triangles of the rectangles cover the surface exactly, whatever the     *)
(* choices.  Also generates voxel sets for the real code.                      *)
EXTENDS BlockMesh, Json
CONSTANTS Box, MaxVox,
          Hasty   \* a wrong design: only the corners of a rectangle are looked at
VARIABLES vox, todo, tris
Init == /\ vox \in {V \in SUBSET Voxels(Box) : Cardinality(V) <= MaxVox}
        /\ todo = Boundary(vox) /\ tris = <<>>
Rect(f, h, k) == {<<f[1], f[2], f[3], f[4] + i, f[5] + j>> : i \in 0..h-1, j \in 0..k-1}
Corner(f, i, j) == LET a == f[1] IN [x \in 1..3 |-> IF x = a THEN f[3] ELSE IF x = Axis1(a) THEN f[4] + i ELSE f[5] + j]
Now == LET f == CHOOSE g \in todo : TRUE IN {g \in todo : g[1] = f[1] /\ g[2] = f[2] /\ g[3] = f[3]}   \* one plane after the other
Take == todo # {} /\ \E f \in Now, h, k \in 1..2 :
           /\ (IF Hasty THEN {f, <<f[1], f[2], f[3], f[4] + h - 1, f[5] + k - 1>>} ELSE Rect(f, h, k)) \subseteq todo
           /\ \A h2 \in h..2, k2 \in k..2 : Rect(f, h2, k2) \subseteq todo => h2 = h /\ k2 = k     \* it cannot grow
           /\ todo' = todo \ Rect(f, h, k)
           /\ LET p == Corner(f, 0, 0)  q == Corner(f, h, 0)  r == Corner(f, h, k)  s == Corner(f, 0, k)
              IN tris' = tris \o IF f[2] = 1 THEN << <<p, q, r>>, <<p, r, s>> >> ELSE << <<p, r, q>>, <<p, s, r>> >>
           /\ UNCHANGED vox
Spec == Init /\ [][Take]_<<vox, todo, tris>>
Small == <<2, 2, 1>>
Cube == <<2, 2, 2>>
Flat == <<3, 3, 1>>
Exact == todo = {} => CoverWhy(tris, Boundary(vox)) = ""
Euler == Boundary(vox) = {} <=> vox = {}
Emit == PrintT("CASE " \o ToJson([vox |-> vox])) /\ FALSE
=============================================================================

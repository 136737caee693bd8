------------------------------- MODULE Slice -------------------------------
(* The image of one layer of a model (the base minus the cutting models) that  *)
(* an agent of the SVX service makes. Pixels count from the upper left corner; *)
(* the image has a black border of one pixel, and y is mirrored.               *)
EXTENDS Dice

Size(g) == <<g[1] + 2, g[2] + 2>>
Pixel(g, v) == <<v[1] + 1, g[2] - v[2]>>
White(g, base, cut, z) == {Pixel(g, v) : v \in {u \in base \ cut : u[3] = z}}
\* Which region of a division of the axes a voxel lies in.
RegionOf(g, div, v) == [i \in 1..3 |-> CHOOSE k \in 0..div[i]-1 : LET p == Part(g[i], div[i], k) IN p[1] <= v[i] /\ v[i] < p[2]]
=============================================================================

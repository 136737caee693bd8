------------------------------ MODULE Voxelize -----------------------------
(* Voxelization: which voxels of a grid a solid fills in the middle planes of  *)
(* the layers.  Coordinates of solids are integers in units of 1/U voxel,      *)
(* relative to the corner of the grid.                                         *)
EXTENDS VoxelFormat, TLC

U == 8
Plane(k) == U * k + U \div 2

-----------------------------------------------------------------------------
(* Boxes <<lo, hi>> : the voxels that a box must fill (it reaches into them in *)
(* the middle plane) and those that it may fill (it touches them there).       *)
Floor(a) == a \div U
Below(a) == (a - 1) \div U        \* the largest voxel that begins before a
InGrid(n, v) == \A i \in 1..3 : 0 <= v[i] /\ v[i] < n[i]
Span(lo, hi, m) == Max2(lo, 0)..Min2(hi, m - 1)
MustXY(n, box) == Span(Floor(box[1][1]), Below(box[2][1]), n[1]) \X Span(Floor(box[1][2]), Below(box[2][2]), n[2])
MayXY(n, box)  == Span(Below(box[1][1]), Floor(box[2][1]), n[1]) \X Span(Below(box[1][2]), Floor(box[2][2]), n[2])
MustZ(box, z) == box[1][3] < Plane(z) /\ Plane(z) < box[2][3]
MayZ(box, z)  == box[1][3] <= Plane(z) /\ Plane(z) <= box[2][3]
Lift(S, Z) == {<<x[1][1], x[1][2], x[2]>> : x \in S \X Z}
MustFill(n, box) == Lift(MustXY(n, box), {z \in 0..n[3]-1 : MustZ(box, z)})
MayFill(n, box)  == Lift(MayXY(n, box), {z \in 0..n[3]-1 : MayZ(box, z)})
MayReach(box, v) == /\ \A i \in 1..2 : Below(box[1][i]) <= v[i] /\ v[i] <= Floor(box[2][i])
                    /\ box[1][3] <= Plane(v[3]) /\ Plane(v[3]) <= box[2][3]
\* The same in layer z only, for a sequence of boxes.
MustAt(n, boxes, z) == UNION {Lift(MustXY(n, boxes[i]), {z}) : i \in {k \in DOMAIN boxes : MustZ(boxes[k], z)}}
MayAt(n, boxes, z)  == UNION {Lift(MayXY(n, boxes[i]), {z}) : i \in {k \in DOMAIN boxes : MayZ(boxes[k], z)}}

-----------------------------------------------------------------------------
(* Convex bodies, given by the triangles of their surface.  A body is the      *)
(* intersection of the half-spaces <<a, d>> : a.p <= d.                        *)
Minus(p, q) == <<p[1] - q[1], p[2] - q[2], p[3] - q[3]>>
Cross(p, q) == <<p[2]*q[3] - p[3]*q[2], p[3]*q[1] - p[1]*q[3], p[1]*q[2] - p[2]*q[1]>>
Dot(p, q) == p[1]*q[1] + p[2]*q[2] + p[3]*q[3]
HalfSpace(t) == LET a == Cross(Minus(t[2], t[1]), Minus(t[3], t[1])) IN <<a, Dot(a, t[1])>>
HalfSpaces(tris) == {HalfSpace(tris[i]) : i \in DOMAIN tris} 
Convex(tris) == LET H == HalfSpaces(tris) IN \A i \in DOMAIN tris : \A j \in 1..3 : \A h \in H : Dot(h[1], tris[i][j]) <= h[2]

\* The least and the greatest value of a.p over the square of the 3x3 voxels
\* around voxel v in the middle plane of its layer.
Least(a, v)    == a[3] * Plane(v[3]) + Min2(a[1] * U * (v[1] - 1), a[1] * U * (v[1] + 2)) + Min2(a[2] * U * (v[2] - 1), a[2] * U * (v[2] + 2))
Greatest(a, v) == a[3] * Plane(v[3]) + Max2(a[1] * U * (v[1] - 1), a[1] * U * (v[1] + 2)) + Max2(a[2] * U * (v[2] - 1), a[2] * U * (v[2] + 2))
WellInside(H, v)  == \A h \in H : Greatest(h[1], v) < h[2]
FarOutside(H, v)  == \E h \in H : Least(h[1], v) > h[2]

\* Bodies [tris, cavity]: the solid is what is in a body that is no cavity, but in
\* no cavity.  What is wrong with filling exactly `got'?
BodiesWhy(n, bodies, got, zs) ==
    LET H == TLCEval([i \in DOMAIN bodies |-> TLCEval(HalfSpaces(bodies[i].tris))])
        full == {i \in DOMAIN bodies : ~bodies[i].cavity}
        cav == DOMAIN bodies \ full
        grid == {v \in Voxels(n) : v[3] \in zs}
    IN IF \E v \in got : v \notin grid THEN "a voxel outside of the region"
       ELSE IF \E v \in got : (\A i \in full : FarOutside(H[i], v)) \/ (\E i \in cav : WellInside(H[i], v)) THEN "a voxel far from the solid"
       ELSE IF \E v \in grid \ got : (\E i \in full : WellInside(H[i], v)) /\ (\A i \in cav : FarOutside(H[i], v)) THEN "a voxel well inside the solid is missing"
       ELSE ""

-----------------------------------------------------------------------------
(* The section of a solid along the middle of a row: intervals <<a, b>>.       *)
RowFill(W, ivals) == {i \in 0..W-1 : \E v \in ivals : v[1] < U * (i + 1) /\ U * i < v[2]}
\* Where the row enters and leaves solids, voxel by voxel.
Enters(ivals, i) == Cardinality({v \in ivals : Floor(v[1]) = i})
Leaves(ivals, i) == Cardinality({v \in ivals : Floor(v[2]) = i})
=============================================================================

----------------------------- MODULE BlockMesh -----------------------------
(* The surface of a set of voxels, made of unit faces; which unit faces the    *)
(* triangles of a mesh cover.  Voxel v is the cube between v and v+<<1,1,1>>.  *)
(* A unit face is <<axis, sign, pos, u, w>>: it lies in the plane              *)
(* (axis = pos), its corner with the least coordinates is <<u, w>> on the      *)
(* other two axes (in cyclic order), and it faces towards sign * axis.         *)
EXTENDS VoxelFormat, TLC

Axis1(a) == (a % 3) + 1
Axis2(a) == ((a + 1) % 3) + 1
Step(v, a, s) == [v EXCEPT ![a] = @ + s]
FaceOf(v, a, s) == <<a, s, v[a] + (s + 1) \div 2, v[Axis1(a)], v[Axis2(a)]>>
Boundary(V) == {FaceOf(x[1], x[2], x[3]) : x \in {y \in V \X {1, 2, 3} \X {-1, 1} : Step(y[1], y[2], y[3]) \notin V}}

-----------------------------------------------------------------------------
\* The axis of the plane in which triangle <<p, q, r>> lies; 0 if it has no area, 4 if it lies in no face plane.
AxisOf(t) ==
    LET flat(a) == t[1][a] = t[2][a] /\ t[2][a] = t[3][a]
        F == {a \in 1..3 : flat(a)}
    IN IF Cardinality(F) > 1 THEN 0 ELSE IF F = {} THEN 4 ELSE CHOOSE a \in F : TRUE
Area2(p, q, r) == (q[1] - p[1]) * (r[2] - p[2]) - (q[2] - p[2]) * (r[1] - p[1])
Sign(k) == IF k > 0 THEN 1 ELSE IF k < 0 THEN -1 ELSE 0

\* A point in a unit face that is on no line between lattice points nearby.
M == 499   SampleU == 60   SampleW == 177
CoveredBy(t) ==     \* the unit faces whose sample points triangle t covers
    LET a == AxisOf(t)
        P == [i \in 1..3 |-> <<t[i][Axis1(a)], t[i][Axis2(a)]>>]
        s == Sign(Area2(P[1], P[2], P[3]))
        lo(i) == Min2(P[1][i], Min2(P[2][i], P[3][i]))
        hi(i) == Max2(P[1][i], Max2(P[2][i], P[3][i]))
        inside(u, w) == LET q == <<u * M + SampleU, w * M + SampleW>>
                            big(p) == <<p[1] * M, p[2] * M>>
                        IN \A i \in 1..3 : Sign(Area2(big(P[i]), big(P[(i % 3) + 1]), q)) = s
    IN IF a = 0 \/ s = 0 THEN {}
       ELSE {<<a, s, t[1][a], c[1], c[2]>> : c \in {d \in (lo(1)..hi(1)-1) \X (lo(2)..hi(2)-1) : inside(d[1], d[2])}}

TwiceArea(t) == LET a == AxisOf(t) IN IF a = 0 THEN 0 ELSE
    Abs(Area2(<<t[1][Axis1(a)], t[1][Axis2(a)]>>, <<t[2][Axis1(a)], t[2][Axis2(a)]>>, <<t[3][Axis1(a)], t[3][Axis2(a)]>>))

\* What is wrong with a mesh (triangles with lattice coordinates) that must cover exactly the faces `want', once each?
CoverWhy(tris, want) ==
    IF \E i \in DOMAIN tris : AxisOf(tris[i]) = 4 THEN "a triangle that lies in no face"
    ELSE LET cov == TLCEval([i \in DOMAIN tris |-> TLCEval(CoveredBy(tris[i]))])
             all == Norm(IF \A i \in DOMAIN tris : Cardinality(cov[i]) < 2
                    THEN {CHOOSE f \in cov[i] : TRUE : i \in {j \in DOMAIN tris : cov[j] # {}}} ELSE UNION {cov[i] : i \in DOMAIN tris})
             turned == {<<f[1], 0 - f[2], f[3], f[4], f[5]>> : f \in want}
         IN IF \E f \in all \ want : f \in turned THEN "a face looks towards the wrong side"
            ELSE IF ~(all \subseteq want) THEN "a face that is not on the surface"
            ELSE IF ~(want \subseteq all) THEN "a face is missing"
            ELSE IF FoldLeft(LAMBDA n, c : n + Cardinality(c), 0, cov) # Cardinality(all) THEN "a face is covered twice"
            ELSE IF FoldLeft(LAMBDA n, t : n + TwiceArea(t), 0, tris) # 2 * Cardinality(want) THEN "the areas differ" ELSE ""
=============================================================================

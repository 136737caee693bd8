----------------------------- MODULE MeshCells -----------------------------
(* Surfaces that are made cell by cell.  The centers of the voxels are the     *)
(* corners of the cells; the surface in a cell depends on which of its eight   *)
(* corners are filled (the configuration of the cell).  Coordinates within a   *)
(* cell are in quarters of a voxel, relative to the middle of the cell: the    *)
(* corners are at <<+-2, +-2, +-2>>.                                           *)
(*                                                                             *)
(* A surface is a sequence of triangles; its edges are split into primitive    *)
(* segments <<p, q, k>> of the lattice, where k counts the occurrences of the  *)
(* same segment.  What is left after opposite segments cancel is the boundary  *)
(* of the surface.  The whole surface is closed iff no cell has a boundary     *)
(* inside and cells leave opposite boundaries on the faces where they meet;    *)
(* that is so if the boundary on a face depends on the four corners of the     *)
(* face only.                                                                  *)
EXTENDS VoxelFormat, TLC

Corner == <<<<-2, 2, -2>>, <<2, 2, -2>>, <<2, -2, -2>>, <<-2, -2, -2>>, <<-2, 2, 2>>, <<2, 2, 2>>, <<2, -2, 2>>, <<-2, -2, 2>>>>
Weight == <<1, 2, 4, 8, 16, 32, 64, 128>>
Full(c, i) == (c \div Weight[i]) % 2 = 1                  \* is corner i of configuration c filled?

SegsOf(s) == {<<s[i][1], s[i][2], s[i][3]>> : i \in DOMAIN s}
Rev(S) == {<<s[2], s[1], s[3]>> : s \in S}
Residue(S) == Norm(S) \ Norm(Rev(S))

\* The two axes of the face across axis a, and the boundary R on that face at coordinate x, without the axis.
Ax1(a) == (a % 3) + 1
Ax2(a) == ((a + 1) % 3) + 1
Flat(p, a) == <<p[Ax1(a)], p[Ax2(a)]>>
OnFace(s, a, x) == s[1][a] = x /\ s[2][a] = x
OnAFace(s) == \E a \in 1..3, x \in {-2, 2} : OnFace(s, a, x)
\* Boundary on the face, as seen from the side of the lower coordinates.
Side(R, a, x) == {LET p == Flat(s[1], a) q == Flat(s[2], a) IN IF x = 2 THEN <<p, q>> ELSE <<q, p>> : s \in {t \in R : OnFace(t, a, x)}}
\* The four corners of the face that are filled.
Pattern(c, a, x) == {Flat(Corner[i], a) : i \in {j \in 1..8 : Full(c, j) /\ Corner[j][a] = x}}

-----------------------------------------------------------------------------
(* Crossings of a line between two points and a surface, in units of 1/M of a  *)
(* quarter of a voxel.                                                         *)
M == 97
Sgn(k) == IF k > 0 THEN 1 ELSE IF k < 0 THEN -1 ELSE 0
Diff(p, q) == <<p[1] - q[1], p[2] - q[2], p[3] - q[3]>>
Det(a, b, c) == a[1] * (b[2]*c[3] - b[3]*c[2]) - a[2] * (b[1]*c[3] - b[3]*c[1]) + a[3] * (b[1]*c[2] - b[2]*c[1])
Orient(a, p, q, r) == Sgn(Det(Diff(p, a), Diff(q, a), Diff(r, a)))      \* +1 if a is on the inner side of <<p, q, r>>
Big(p) == <<p[1] * M, p[2] * M, p[3] * M>>
\* +1 if going from A to B leaves through the triangle, -1 if it enters, 0 if not; 100 if that is not clear.
Crossing(A, B, t) ==
    LET p == Big(t[1])  q == Big(t[2])  r == Big(t[3])
        sa == Orient(A, p, q, r)  sb == Orient(B, p, q, r)
    IN IF sa = sb THEN (IF sa = 0 /\ p # q /\ q # r /\ r # p /\ Orient(<<A[1] + 31, A[2] + 57, A[3] + 11>>, p, q, r) # 0 THEN 100 ELSE 0)
       ELSE LET x == Orient(A, B, p, q)  y == Orient(A, B, q, r)  z == Orient(A, B, r, p)
            IN IF {x, y, z} \in {{1}, {-1}} THEN (IF sa = 0 \/ sb = 0 THEN 100 ELSE sa)
               ELSE IF {1, -1} \subseteq {x, y, z} THEN 0 ELSE 100
Crossings(A, B, tris) == FoldLeft(LAMBDA n, t : n + Crossing(A, B, t), 0, tris)
\* A point of the cell near corner i.
Near(i) == <<Corner[i][1] * 90 + 5 * i - 17, Corner[i][2] * 90 + 3 * i - 7, Corner[i][3] * 90 - 7 * i + 31>>

Bit(b) == IF b THEN 1 ELSE 0
\* What is wrong with the surface of a cell by itself?
CellWhy(c, tris, segs) ==
    LET S == TLCEval(SegsOf(segs))
        R == TLCEval(Residue(S))
    IN IF Cardinality(S) # Len(segs) THEN "the driver is wrong: segments are not distinct"
       ELSE IF c \notin {0, 255} /\ tris = <<>> THEN "no surface"
       ELSE IF \E s \in S : \E i \in 1..2 : \E a \in 1..3 : s[i][a] > 2 \/ s[i][a] < -2 THEN "a surface that leaves its cell"
       ELSE IF \E s \in R : ~OnAFace(s) THEN "an open edge inside of the cell"
       ELSE IF \E i \in 2..8 : Crossings(Near(1), Near(i), tris) # Bit(Full(c, 1)) - Bit(Full(c, i)) THEN "the surface does not separate the filled from the empty corners"
       ELSE ""
=============================================================================

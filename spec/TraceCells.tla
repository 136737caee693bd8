----------------------------- MODULE TraceCells ----------------------------
(* The manifold mesh and the marching-cubes mesh of the real code (C14, C15).  *)
EXTENDS CellTable, Events

(* Whole models: coordinates in quarters of a voxel, voxel v has its middle at *)
(* 4v+2.                                                                       *)
\* The cells (by their lowest corners) that contain a segment.
Ivl(p, q) == {k \in ((p - 2) \div 4 - 1)..((p - 2) \div 4) : 4 * k + 2 <= p /\ p <= 4 * k + 6 /\ 4 * k + 2 <= q /\ q <= 4 * k + 6}
CellsOf(s) == Ivl(s[1][1], s[2][1]) \X Ivl(s[1][2], s[2][2]) \X Ivl(s[1][3], s[2][3])

\* The line between the middles of v and its neighbor along axis a, a little aside.
Mid(v, o) == <<(4 * (v[1] - o[1]) + 2) * M + 23, (4 * (v[2] - o[2]) + 2) * M + 41, (4 * (v[3] - o[3]) + 2) * M + 65>>
Shift(t, o) == <<Diff(t[1], <<4*o[1], 4*o[2], 4*o[3]>>), Diff(t[2], <<4*o[1], 4*o[2], 4*o[3]>>), Diff(t[3], <<4*o[1], 4*o[2], 4*o[3]>>)>>
NearTo(tris, v) == SelectSeq(tris, LAMBDA t : \A a \in 1..3 : /\ \E i \in 1..3 : t[i][a] >= 4 * v[a]
                                                           /\ \E i \in 1..3 : t[i][a] <= 4 * v[a] + 8)
Along(v, a) == [v EXCEPT ![a] = @ + 1]
\* The triangles near to the cells of slabs of a model, across the axis along which it is long.
Slab == 8
Extent(V, a) == LET C == {v[a] : v \in V} IN Max(C) - Min(C)
LongAxis(V) == CHOOSE a \in 1..3 : \A b \in 1..3 : Extent(V, a) >= Extent(V, b)
SlabsOf(tris, V, a) ==
    LET C == TLCEval({v[a] : v \in V})
    IN [k \in {(x - d) \div Slab : x \in C, d \in {0, 1}} |->
           TLCEval(SelectSeq(tris, LAMBDA t : /\ \E i \in 1..3 : t[i][a] >= 4 * Slab * k
                                              /\ \E i \in 1..3 : t[i][a] <= 4 * Slab * (k + 1) + 8))]
ModelWhy(e) ==
    LET V == Norm(SetOf(e.vox))
        S == Norm(SegsOf(e.segs))
        faulty(v) == CellAt(V, v) \in Faulty
        long == LongAxis(V)
        slabs == TLCEval(SlabsOf(e.tris, V, long))
        grid == {<<v[1] + d[1], v[2] + d[2], v[3] + d[3]>> : v \in V, d \in {-1, 0} \X {-1, 0} \X {-1, 0}}
    IN IF ~e.on THEN "a corner that is not on the lattice"
       ELSE IF Cardinality(S) # Len(e.segs) THEN "the driver is wrong: segments are not distinct"
       ELSE IF \E s \in Residue(S) : ~\E v \in CellsOf(s) : faulty(v) THEN "an open edge"
       ELSE IF V = {} THEN IF e.tris = <<>> THEN "" ELSE "a surface without voxels"
       ELSE IF \E v \in grid : /\ ~faulty(v)
                               /\ LET some == TLCEval(NearTo(slabs[v[long] \div Slab], v))
                                      near == TLCEval([i \in DOMAIN some |-> TLCEval(Shift(some[i], v))])
                                  IN \E a \in 1..3 : Crossings(Mid(v, v), Mid(Along(v, a), v), near) # Bit(v \in V) - Bit(Along(v, a) \in V)
            THEN "the surface does not separate the filled from the empty voxels"
       ELSE ""

VerdictCells(e) ==
    CASE e.op = "cell" -> IF ~e.on THEN "a corner that is not on the lattice" ELSE CellWhy(e.c, e.tris, e.segs)
      [] e.op = "face" -> IF ~Odd(<<e.c, e.axis, e.at>>) THEN ""
                           ELSE IF Ends(Bound[<<e.c, e.axis, e.at>>]) = Ends(Most[<<e.axis, Pattern(e.c, e.axis, e.at)>>])
                           THEN "the surface joins the filled corners of a face in another way than the neighboring cells do"
                           ELSE "the surface does not meet the surfaces of the neighboring cells"
      [] e.op = "model" -> IF Has(e, "exit") /\ e.exit # 0 THEN "failed" ELSE ModelWhy(e)
=============================================================================

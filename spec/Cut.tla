-------------------------------- MODULE Cut --------------------------------
(* voxcut: the voxels of a section of a base model that no cutting model       *)
(* fills, the division of a model into sections, and the .vox format.          *)
EXTENDS VoxelFormat, TLC

Add3(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Sub3(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>

\* What is left: `base' a set of voxels, `cuts' a sequence of [off, vox]: the
\* place of the cut's grid on the grid of the base, and its voxels.
Left(n, base, cuts, s, k) ==
    {v \in base : InBox(n, s, k, v)} \ UNION {{Add3(v, c.off) : v \in c.vox} : c \in SetOf(cuts)}
Section(n, base, s, k) == {v \in base : InBox(n, s, k, v)}

\* A section that has nothing left after a cut gives no output but an error.
MustFail(left, cuts) == left = {} /\ Len(cuts) > 0

-----------------------------------------------------------------------------
(* Sections: boxes [s, k] that tile a grid.                                    *)
Clip(n, b) == [i \in 1..3 |-> <<b.s[i], Min2(b.s[i] + b.k[i], n[i])>>]     \* intervals
Volume(c) == (c[1][2] - c[1][1]) * (c[2][2] - c[2][1]) * (c[3][2] - c[3][1])
Apart(c, d) == \E i \in 1..3 : c[i][2] <= d[i][1] \/ d[i][2] <= c[i][1]
Tiles(n, boxes) ==
    LET cl == TLCEval([j \in DOMAIN boxes |-> TLCEval(Clip(n, boxes[j]))])
    IN /\ \A j \in DOMAIN boxes : \A i \in 1..3 : 0 <= cl[j][i][1] /\ cl[j][i][1] < cl[j][i][2]
       /\ \A j, l \in DOMAIN boxes : j < l => Apart(cl[j], cl[l])
       /\ FoldLeft(LAMBDA a, j : a + Volume(cl[j]), 0, [j \in DOMAIN boxes |-> j]) = Total(n)

-----------------------------------------------------------------------------
(* The .vox format: a header, and the chunk MAIN with SIZE and XYZI in it.     *)
Int32(b, k) == b[k] + 256 * b[k+1] + 65536 * b[k+2] + 16777216 * b[k+3]   \* (small values only)
Small(b, k) == b[k+3] = 0
Tag(b, k, t) == SubSeq(b, k, k + 3) = t
VoxWhy(b, want) ==   \* "" or what is wrong with the bytes b of a .vox file that must hold `want'
    IF Len(b) < 60 THEN "too short"
    ELSE IF ~(Tag(b, 1, <<86, 79, 88, 32>>) /\ Int32(b, 5) = 150) THEN "bad header"
    ELSE IF ~(Tag(b, 9, <<77, 65, 73, 78>>) /\ Small(b, 13) /\ Small(b, 17) /\ Int32(b, 13) = 0 /\ Int32(b, 17) = Len(b) - 20) THEN "bad MAIN chunk"
    ELSE IF ~(Tag(b, 21, <<83, 73, 90, 69>>) /\ Int32(b, 25) = 12 /\ Int32(b, 29) = 0) THEN "bad SIZE chunk"
    ELSE IF ~(Tag(b, 45, <<88, 89, 90, 73>>) /\ Small(b, 49) /\ Int32(b, 49) = Len(b) - 56 /\ Int32(b, 53) = 0) THEN "bad XYZI chunk"
    ELSE LET num == Int32(b, 57)
             size == <<Int32(b, 33), Int32(b, 37), Int32(b, 41)>>
         IN IF ~Small(b, 57) \/ 4 * num # Len(b) - 60 THEN "the number of voxels is wrong"
            ELSE LET vox == {<<b[4*j+57], b[4*j+58], b[4*j+59]>> : j \in 1..num}
                 IN IF Cardinality(vox) # num THEN "a voxel twice"
                    ELSE IF vox # want THEN "not exactly the voxels of the result"
                    ELSE IF \E v \in vox : \E i \in 1..3 : v[i] >= size[i] \/ size[i] > 256 THEN "the size does not cover the voxels"
                    ELSE IF \E j \in 1..num : b[4*j+60] = 0 THEN "a voxel without a color" ELSE ""
=============================================================================

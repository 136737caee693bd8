---------------------------- MODULE VoxelFormat ----------------------------
(* The binvox and vshell file formats: the order of the voxels in a file, the  *)
(* run-length encoding, the reference decoder (a function from bytes to the    *)
(* filled voxels or an error), and the selection of sub-boxes.                 *)
(* Sizes n and voxels v are triples <<x, y, z>>, indices from 0.               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

\* The same set, sorted by TLC (which finds members by binary search only then).
Norm(S) == LET T == TLCEval(S) IN IF Cardinality(T) >= 0 THEN T ELSE T

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
Max3(t) == Max2(t[1], Max2(t[2], t[3]))
Pow2(k) == 2^k

Total(n) == n[1] * n[2] * n[3]

\* The order in files: y runs fastest, then z, then x.
Cell(n, p) == <<p \div (n[2] * n[3]), p % n[2], (p \div n[2]) % n[3]>>
Pos(n, v)  == v[1] * n[2] * n[3] + v[3] * n[2] + v[2]

Voxels(n) == {<<x, y, z>> : x \in 0..n[1]-1, y \in 0..n[2]-1, z \in 0..n[3]-1}

SetOf(s) == {s[i] : i \in DOMAIN s}
NoDup(s) == Cardinality(SetOf(s)) = Len(s)

-----------------------------------------------------------------------------
(* The reference decoders.  Their result is a record                           *)
(*   ok   : TRUE iff the payload is well-formed                                *)
(*   any  : TRUE iff the format leaves open whether it is                      *)
(*   runs : the runs of filled voxels, <<first position, length, value>>       *)

\* binvox: pairs of a value (0 or 1) and a count (1..255).
BinvoxRuns(total, b) ==
    LET half == Len(b) \div 2
        step(acc, i) ==
            IF ~acc.ok THEN acc
            ELSE LET v == b[2*i-1]  c == b[2*i]
                 IN IF v > 1 \/ c = 0 \/ acc.at + c > total
                    THEN [acc EXCEPT !.ok = FALSE]
                    ELSE [acc EXCEPT !.at = @ + c,
                                     !.runs = IF v = 1 THEN Append(@, <<acc.at, c, 1>>) ELSE @]
        r == FoldLeft(step, [ok |-> TRUE, any |-> FALSE, at |-> 0, runs |-> <<>>], [i \in 1..half |-> i])
    IN  IF Len(b) % 2 = 1 THEN [r EXCEPT !.ok = FALSE] ELSE r

\* vshell: values of four bytes (little-endian); 0 and 2^32-1 are empty
\* positions, with a count of two bytes; all others are sets of neighbors,
\* with a count of one byte.  Bit 13 (the voxel itself) only marks a voxel.
RECURSIVE ShellStep(_, _, _, _)
ShellStep(total, b, k, acc) ==      \* decodes one run that begins at byte k
    LET v == <<b[k], b[k+1], b[k+2], b[k+3]>>
        empty == v = <<0, 0, 0, 0>> \/ v = <<255, 255, 255, 255>>
        short == k + (IF empty THEN 5 ELSE 4) > Len(b)
        c == IF empty THEN b[k+4] + 256 * b[k+5] ELSE b[k+4]
    IN  IF short \/ (~empty /\ c = 0) \/ acc.at + c > total THEN [acc EXCEPT !.ok = FALSE, !.next = k]
        ELSE [acc EXCEPT !.at = @ + c, !.next = k + (IF empty THEN 6 ELSE 5),
                         !.any = @ \/ c = 0,
                         !.runs = IF empty THEN @ ELSE Append(@, <<acc.at, c, v>>)]
ShellRuns(total, b) ==
    LET step(acc, i) == IF ~acc.ok \/ acc.next > Len(b) THEN acc
                        ELSE IF acc.next + 3 > Len(b) THEN [acc EXCEPT !.ok = FALSE]
                        ELSE ShellStep(total, b, acc.next, acc)
    IN  FoldLeft(step, [ok |-> TRUE, any |-> FALSE, at |-> 0, next |-> 1, runs |-> <<>>],
                 [i \in 1..(Len(b) \div 5 + 1) |-> i])

\* The marker bit (bit 13, the bit of weight 32 of the second byte) removed.
Unmark(v) == <<v[1], IF (v[2] \div 32) % 2 = 1 THEN v[2] - 32 ELSE v[2], v[3], v[4]>>

RunVoxels(n, runs) == UNION {{Cell(n, p) : p \in r[1]..r[1]+r[2]-1} : r \in SetOf(runs)}
RunShell(n, runs) ==   \* with the bytes of the neighbor set
    UNION {LET u == Unmark(r[3]) IN {Cell(n, p) \o u : p \in r[1]..r[1]+r[2]-1} : r \in SetOf(runs)}

Bytes4(k) == <<k % 256, (k \div 256) % 256, (k \div 65536) % 256, (k \div 16777216) % 256>>

-----------------------------------------------------------------------------
(* Sub-boxes: start s and count k (0 = the extent of the axis).                *)
Count(n, k) == [i \in 1..3 |-> IF k[i] = 0 THEN n[i] ELSE k[i]]
InBox(n, s, k, v) == \A i \in 1..3 : s[i] <= v[i] /\ v[i] < s[i] + (IF k[i] = 0 THEN n[i] ELSE k[i])
\* The size of a written box: its count, or the part inside of the grid.
BoxSizeOk(n, s, k, rn) == \A i \in 1..3 : rn[i] \in {Count(n, k)[i], Min2(Count(n, k)[i], n[i] - s[i])}
=============================================================================

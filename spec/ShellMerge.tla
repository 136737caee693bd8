---------------------------- MODULE ShellMerge -----------------------------
(* The outer shell of a set of voxels, and the incremental algorithm that      *)
(* merges one more model into a shell (vshell.Add).                            *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

\* The 26 offsets of neighbors, with the number of their bit.
Offsets == {<<dx, dy, dz>> : dx \in -1..1, dy \in -1..1, dz \in -1..1} \ {<<0, 0, 0>>}
Bit(d) == 9 * (d[1] + 1) + 3 * (d[2] + 1) + (d[3] + 1)
BitVal == [d \in Offsets |-> 2^Bit(d)]
Plus(v, d) == <<v[1] + d[1], v[2] + d[2], v[3] + d[3]>>
Neg(d) == <<-d[1], -d[2], -d[3]>>

\* The directions of the filled neighbors of v, and the same as a number.
Filled(S, v) == {d \in Offsets : Plus(v, d) \in S}
NeighborBits(D) == SumSet({BitVal[d] : d \in D})

\* What the shell of the voxels S must be: <<x, y, z, neighbors>>.
ShellOf(S) == {v \o <<NeighborBits(D)>> : <<v, D>> \in {<<v, Filled(S, v)>> : v \in S} \ {<<v, Offsets>> : v \in S}}

-----------------------------------------------------------------------------
(* A shell as the algorithm keeps it: origin t (in voxels), size n, and the    *)
(* neighbors of its voxels (indices relative to the origin).                   *)
NoShell == [t |-> <<0, 0, 0>>, n |-> <<0, 0, 0>>, vox |-> <<>>]

Move(f, o) == [v \in {Plus(u, o) : u \in DOMAIN f} |-> f[Plus(v, Neg(o))]]
MaxPlus1(n, V, i) == Max({n[i]} \cup {v[i] + 1 : v \in V})
Grow(n, V) == <<MaxPlus1(n, V, 1), MaxPlus1(n, V, 2), MaxPlus1(n, V, 3)>>

\* The offsets of the new and of the current voxels along an axis.
NewOff(st, mt) == IF mt >= st THEN mt - st ELSE 0
OldOff(st, mt) == IF mt >= st THEN 0 ELSE st - mt

\* Merges the model [t, n, vox: set of indices] into a shell.
AddModel(s, m) ==
    IF DOMAIN s.vox = {} /\ m.vox = {} THEN s
    ELSE LET empty == DOMAIN s.vox = {}
             t0 == IF empty THEN m.t ELSE s.t
             n0 == IF empty THEN m.n ELSE s.n
             nd == [i \in 1..3 |-> NewOff(t0[i], m.t[i])]
             od == [i \in 1..3 |-> OldOff(t0[i], m.t[i])]
             old == IF empty THEN s.vox ELSE Move(s.vox, od)
             new == {Plus(v, nd) : v \in m.vox} \ DOMAIN old
             n1 == Grow(Grow(n0, DOMAIN old), new)
             \* every old voxel learns of its new neighbors
             old1 == [v \in DOMAIN old |-> old[v] \cup {d \in Offsets : Plus(v, d) \in new}]
             near == [v \in new |-> {d \in Offsets : Plus(v, d) \in new \cup DOMAIN old}]
             keep == {v \in DOMAIN old1 : old1[v] # Offsets} \cup {v \in new : near[v] # Offsets}
         IN [t |-> <<t0[1] - od[1], t0[2] - od[2], t0[3] - od[3]>>, n |-> n1,
             vox |-> [v \in keep |-> IF v \in new THEN near[v] ELSE old1[v]]]
=============================================================================

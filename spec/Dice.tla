-------------------------------- MODULE Dice -------------------------------
(* stldice: the bounding box of the first mesh (or the given one) is divided   *)
(* into regions; each mesh is voxelized region by region; the regions that     *)
(* have voxels are stored in files; a script cuts the base region by region    *)
(* and merges what is left.                                                    *)
EXTENDS Voxelize

\* The number of voxels along an axis of l/U voxels.  One more than an exact fit is allowed only where the
\* file itself had to round the coordinates (e.loose).
Ceil(l) == (l + U - 1) \div U
Sizes(l, loose) == IF l % U = 0 /\ loose THEN {l \div U, l \div U + 1} ELSE {Ceil(l)}
GridsOf(e) == LET loose == "loose" \in DOMAIN e /\ e.loose
              IN Sizes(e.len[1], loose) \X Sizes(e.len[2], loose) \X Sizes(e.len[3], loose)

\* Interval k of 0..n-1 of an axis of m voxels divided into n regions: the last one takes the remainder.
Part(m, n, k) == LET d == m \div n IN <<k * d, IF k = n - 1 THEN m ELSE (k + 1) * d>>
CanDivide(m, n) == m \div n > 0

Must(n, boxes) == UNION {MustFill(n, boxes[i]) : i \in DOMAIN boxes}
May(n, boxes) == UNION {MayFill(n, boxes[i]) : i \in DOMAIN boxes}

InReg(reg, v) == \A i \in 1..3 : reg.at[i] <= v[i] /\ v[i] < reg.at[i] + reg.n[i]
Disjoint(r, q) == \E i \in 1..3 : r.at[i] + r.n[i] <= q.at[i] \/ q.at[i] + q.n[i] <= r.at[i]
=============================================================================

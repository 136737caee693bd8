----------------------------- MODULE TraceMesh -----------------------------
(* Block meshes made by the real code (C16).                                   *)
EXTENDS BlockMesh, Events
CUT == INSTANCE Cut

MeshWhy(e, vox) == IF ~e.on THEN "a corner that is not on the lattice of the voxels" ELSE CoverWhy(e.tris, Norm(Boundary(Norm(vox))))
VerdictC16(e) ==
    IF e.op = "mesh" THEN MeshWhy(e, SetOf(e.vox))
    ELSE LET left == CUT!Left(e.n, SetOf(e.base), [i \in DOMAIN e.cuts |-> [off |-> e.cuts[i].off, vox |-> SetOf(e.cuts[i].vox)]], e.s, e.k)
         IN IF e.exit = 99 THEN "crashed" ELSE IF e.exit = 98 THEN "hangs"
            ELSE IF CUT!MustFail(left, e.cuts) THEN IF e.exit = 0 \/ e.wrote THEN "nothing is left, but no error" ELSE ""
            ELSE IF e.exit # 0 THEN "failed" ELSE IF ~e.wrote THEN "no output" ELSE IF Has(e, "bad") THEN "malformed output"
            ELSE MeshWhy(e, left)
=============================================================================

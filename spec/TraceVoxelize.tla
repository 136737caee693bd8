---------------------------- MODULE TraceVoxelize --------------------------
(* What the specification of the voxelization allows the real code to do       *)
(* (C10, C11).                                                                 *)
EXTENDS Voxelize, Events

Layers(e) == IF Has(e, "zi") THEN {e.zi} ELSE 0..e.n[3]-1
Got(e) == SetOf(e.got)

\* A solid made of boxes whose faces are not on the lines of the grid (then the
\* voxels that must and that may be filled are the same), or are.
VerdictBoxes(e) ==
    LET got == TLCEval(Got(e))  boxes == e.boxes  zs == Layers(e)
    IN IF \E v \in got : ~InGrid(e.n, v) THEN "a voxel outside of the region"
       ELSE IF \E v \in got : v[3] \notin zs \/ \A i \in DOMAIN boxes : ~MayReach(boxes[i], v) THEN "a voxel that the solid does not reach"
       ELSE IF \E i \in DOMAIN boxes : \E v \in MustFill(e.n, boxes[i]) : v[3] \in zs /\ v \notin got
            THEN "a voxel that the solid reaches is missing" ELSE ""

VerdictC10(e) ==
    IF Has(e, "err") THEN (IF Total(e.n) = 0 THEN "" ELSE "failed")
    ELSE IF Total(e.n) = 0 THEN "accepted an empty region"
    ELSE CASE e.op = "boxes" -> VerdictBoxes(e)
           [] e.op = "bodies" -> IF \E i \in DOMAIN e.bodies : ~Convex(e.bodies[i].tris) THEN "the driver is wrong: not convex"
                                 ELSE BodiesWhy(e.n, e.bodies, Got(e), Layers(e))

\* The parts [off, n, vox] of a subdivision put together are the whole.
VerdictC11(e) ==
    IF e.op = "race" THEN "data race"
    ELSE LET whole == TLCEval(SetOf(e.whole)) IN
         IF \E p \in SetOf(e.parts) : \E v \in SetOf(p.vox) : ~InGrid(p.n, v) THEN "a voxel outside of its region"
         ELSE IF UNION {{<<v[1] + p.off[1], v[2] + p.off[2], v[3] + p.off[3]>> : v \in SetOf(p.vox)} : p \in SetOf(e.parts)} # whole
              THEN "the regions together are not the whole"
         ELSE IF SetOf(e.layers) # whole THEN "the layers together are not the whole"
         ELSE IF \E i \in DOMAIN e.again : SetOf(e.again[i]) # whole THEN "another result when done again"
         ELSE IF e.changed THEN "the mesh was changed" ELSE ""
=============================================================================

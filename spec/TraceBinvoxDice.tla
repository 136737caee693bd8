-------------------------- MODULE TraceBinvoxDice --------------------------
(* The scripts that the real binvox-dice prints, as they are executed (C27).   *)
(* e.f: the division; e.m: the number of models; e.calls: the commands in      *)
(* order: binvox with its model, box and output, or voxcut with its inputs;    *)
(* the last one, "end", has the planes along each axis.                        *)
EXTENDS TraceMesh
BD == INSTANCE BinvoxDice

ScriptWhy(e) ==
    LET cs == e.calls
        n == Len(cs) - 1
        planes == cs[Len(cs)].box
        Bin == {i \in 1..n : cs[i].tool = "binvox"}
        Cuts == {i \in 1..n : cs[i].tool = "voxcut"}
        boxes == BD!Boxes(e.f)
        BoxOf(i) == << <<cs[i].box[1][1], cs[i].box[1][2]>>, <<cs[i].box[2][1], cs[i].box[2][2]>>, <<cs[i].box[3][1], cs[i].box[3][2]>> >>
        \* The last binvox before i that wrote the file.
        Maker(file, i) == LET S == {j \in Bin : j < i /\ cs[j].out = file} IN IF S = {} THEN 0 ELSE CHOOSE j \in S : \A k \in S : k <= j
        ins == TLCEval([i \in Cuts |-> [k \in DOMAIN cs[i].in |-> Maker(cs[i].in[k], i)]])
        Ins(i) == ins[i]
    IN IF n < 1 THEN "no commands"
       ELSE IF \E i \in Bin : cs[i].m = 0 THEN "binvox is run on something else than a model and a box"
       ELSE IF \E a \in 1..3 : ~BD!Even(planes[a], e.f[a]) THEN "the boxes do not divide the bounding box evenly"
       ELSE IF \E i \in Bin : BoxOf(i) \notin boxes THEN "a box that is not one of the division"
       ELSE IF Cardinality({<<cs[i].m, BoxOf(i)>> : i \in Bin}) # Cardinality(Bin) THEN "a box of a model is voxelized twice"
       ELSE IF Cardinality(Bin) # e.m * Cardinality(boxes) THEN "a box is left out"
       ELSE IF Cardinality({cs[i].opts : i \in Bin}) # 1 THEN "the models are voxelized differently"
       ELSE IF \E i \in Cuts : \E k \in DOMAIN Ins(i) : Ins(i)[k] = 0 THEN "voxcut reads a file that binvox has not made"
       ELSE IF \E i \in Cuts : Len(Ins(i)) = 0 \/ cs[Ins(i)[1]].m # 1 THEN "the piece that is cut is not one of the base"
       ELSE IF \E i \in Cuts : {cs[Ins(i)[k]].m : k \in DOMAIN Ins(i)} # 1..e.m \/ Len(Ins(i)) # e.m THEN "a piece is not cut by every other model"
       ELSE IF \E i \in Cuts : \E k \in DOMAIN Ins(i) : BoxOf(Ins(i)[k]) # BoxOf(Ins(i)[1]) THEN "a piece is cut by another box of a model"
       ELSE IF {BoxOf(Ins(i)[1]) : i \in Cuts} # boxes \/ Cardinality(Cuts) # Cardinality(boxes) THEN "not every box is cut once"
       ELSE IF Cardinality({cs[i].out : i \in Cuts}) # Cardinality(Cuts) \/ \E i \in Cuts : cs[i].out = "" THEN "pieces share an output"
       ELSE ""

VerdictC27(e) ==
    IF e.op = "piece" THEN VerdictC16(e)
    ELSE IF e.exit \in {98, 99} THEN "crashed or hangs"
    ELSE IF e.bad THEN IF e.exit = 0 THEN "unsound arguments are accepted" ELSE ""
    ELSE IF e.exit # 0 THEN IF e.free THEN "" ELSE "failed"    \* free: a factor that is never used may be refused or not
    ELSE ScriptWhy(e)
=============================================================================

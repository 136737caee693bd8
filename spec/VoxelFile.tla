----------------------------- MODULE VoxelFile -----------------------------
(* Design of the file formats as two machines: an encoder that splits a model  *)
(* into runs in any way, a fault that may cut off or change one byte of what   *)
(* was stored, and a decoder that consumes the bytes one at a time like the    *)
(* readers of the code.  TLC checks for all models of small grids, all ways to *)
(* split them and all faults that                                              *)
(*   - what was encoded without a fault is decoded to the same model,          *)
(*   - the stepwise decoder and the reference decoder of VoxelFormat (which    *)
(*     judges the real readers) always agree, and                              *)
(*   - the decoder never accepts more than the grid holds.                     *)
EXTENDS VoxelFormat, TLC

CONSTANTS Fmt,      \* "binvox" or "vshell"
          Grids,    \* sizes of the grids
          MaxRun,   \* longest run of the encoder
          Bytes,    \* values that a fault can put into a byte
          Wrong     \* a decoder that is wrong, for comparison: "limit" (runs beyond the grid), "end" (ends anywhere), or "no"

\* Sizes for the configurations.
QuickGrids == {<<0, 0, 0>>, <<0, 2, 1>>, <<2, 0, 1>>, <<1, 1, 1>>, <<1, 2, 1>>, <<2, 1, 2>>, <<1, 2, 3>>}
ShellGrids == {<<0, 0, 0>>, <<0, 2, 1>>, <<2, 0, 1>>, <<1, 1, 1>>, <<1, 1, 2>>, <<1, 3, 1>>}
DeepGrids  == QuickGrids \cup {<<2, 2, 2>>, <<3, 2, 1>>, <<7, 1, 1>>, <<1, 7, 1>>, <<1, 1, 7>>}
DeepShellGrids == ShellGrids \cup {<<2, 1, 2>>, <<2, 2, 1>>, <<1, 4, 1>>}

VARIABLES n, model,      \* the model that is written
          sent, wire,    \* encoder: positions encoded so far; bytes stored
          fault,         \* "none" or the kind of damage
          ph, rd, at, vbuf, cbuf, got   \* decoder: phase, bytes read, position, value and count so far, voxels

vars == <<n, model, sent, wire, fault, ph, rd, at, vbuf, cbuf, got>>

\* The content of a position: 0 is empty, otherwise the kind of voxel.
\* (In a shell: 1 = a voxel with one neighbor, 2 = without any neighbors,
\*  which is stored as the marker.)
Kinds == IF Fmt = "binvox" THEN 0..1 ELSE 0..2
Encode(kind) == IF Fmt = "binvox" THEN <<kind>>
                ELSE CASE kind = 0 -> <<0, 0, 0, 0>>
                       [] kind = 1 -> <<1, 0, 0, 0>>
                       [] kind = 2 -> <<0, 32, 0, 0>>
EncCount(kind, c) == IF Fmt = "vshell" /\ kind = 0 THEN <<c, 0>> ELSE <<c>>

Init == /\ n \in Grids
        /\ model \in [0..Total(n)-1 -> Kinds]
        /\ sent = 0 /\ wire = <<>> /\ fault = "none"
        /\ ph = "wait" /\ rd = 0 /\ at = 0 /\ vbuf = <<>> /\ cbuf = <<>> /\ got = {}

\* The encoder stores a run of equal positions; it need not be maximal.
EmitRun ==
    /\ ph = "wait" /\ fault = "none" /\ sent < Total(n)
    /\ \E c \in 1..MaxRun :
        /\ sent + c <= Total(n)
        /\ \A p \in sent..sent+c-1 : model[p] = model[sent]
        /\ wire' = wire \o Encode(model[sent]) \o EncCount(model[sent], c)
        /\ sent' = sent + c
    /\ UNCHANGED <<n, model, fault, ph, rd, at, vbuf, cbuf, got>>

\* The complete file is stored, then possibly damaged once.
Damage ==
    /\ ph = "wait" /\ sent = Total(n) /\ fault = "none"
    /\ \/ \E k \in 0..Len(wire)-1 : wire' = SubSeq(wire, 1, k) /\ fault' = "cut"
       \/ \E k \in 1..Len(wire), v \in Bytes : /\ wire[k] # v
                                               /\ wire' = [wire EXCEPT ![k] = v] /\ fault' = "byte"
       \/ \E v \in Bytes : wire' = Append(wire, v) /\ fault' = "extra"
    /\ UNCHANGED <<n, model, sent, ph, rd, at, vbuf, cbuf, got>>

Open == /\ ph = "wait" /\ sent = Total(n) /\ ph' = "value"
        /\ UNCHANGED <<n, model, sent, wire, fault, rd, at, vbuf, cbuf, got>>

VLen == IF Fmt = "binvox" THEN 1 ELSE 4
IsEmpty(v) == IF Fmt = "binvox" THEN v = <<0>> ELSE v \in {<<0, 0, 0, 0>>, <<255, 255, 255, 255>>}
CLen(v) == IF Fmt = "vshell" /\ IsEmpty(v) THEN 2 ELSE 1
Filled(v) == IF Fmt = "binvox" THEN <<>> ELSE Unmark(v)

ReadValue ==
    /\ ph = "value" /\ rd < Len(wire)
    /\ LET v == Append(vbuf, wire[rd+1])
       IN /\ vbuf' = v
          /\ ph' = IF Len(v) < VLen THEN "value"
                   ELSE IF Fmt = "binvox" /\ v[1] > 1 THEN "error" ELSE "count"
    /\ rd' = rd + 1
    /\ UNCHANGED <<n, model, sent, wire, fault, at, cbuf, got>>
ReadCount ==
    /\ ph = "count" /\ rd < Len(wire)
    /\ LET c == Append(cbuf, wire[rd+1])
           k == IF Len(c) = 2 THEN c[1] + 256 * c[2] ELSE c[1]
       IN IF Len(c) < CLen(vbuf) THEN cbuf' = c /\ UNCHANGED <<vbuf, ph, at, got>>
          ELSE IF (k = 0 /\ CLen(vbuf) = 1) \/ (at + k > Total(n) /\ Wrong # "limit") THEN ph' = "error" /\ UNCHANGED <<vbuf, cbuf, at, got>>
          ELSE /\ at' = at + k
               /\ got' = IF IsEmpty(vbuf) THEN got ELSE got \cup {Cell(n, p) \o Filled(vbuf) : p \in at..at+k-1}
               /\ vbuf' = <<>> /\ cbuf' = <<>> /\ ph' = "value"
    /\ rd' = rd + 1
    /\ UNCHANGED <<n, model, sent, wire, fault>>
EndOfFile ==
    /\ ph \in {"value", "count"} /\ rd = Len(wire)
    /\ ph' = IF (ph = "value" /\ vbuf = <<>>) \/ Wrong = "end" THEN "done" ELSE "error"
    /\ UNCHANGED <<n, model, sent, wire, fault, rd, at, vbuf, cbuf, got>>

Next == EmitRun \/ Damage \/ Open \/ ReadValue \/ ReadCount \/ EndOfFile
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Reference == LET r == IF Fmt = "binvox" THEN BinvoxRuns(Total(n), wire) ELSE ShellRuns(Total(n), wire)
             IN [ok |-> r.ok, got |-> IF ~r.ok THEN {} ELSE IF Fmt = "binvox" THEN RunVoxels(n, r.runs) ELSE RunShell(n, r.runs)]

FilledModel == {Cell(n, p) \o (IF Fmt = "binvox" THEN <<>> ELSE Unmark(Encode(model[p]))) :
                p \in {q \in DOMAIN model : model[q] # 0}}

Finished == ph \in {"done", "error"}

\* What was not damaged is decoded exactly, however it was split.
RoundTrip == Finished /\ fault = "none" => ph = "done" /\ got = FilledModel /\ at = Total(n)
\* The decoder that reads byte by byte and the reference decoder agree.
Agree == Finished => LET r == Reference IN (ph = "done") = r.ok /\ (r.ok => got = r.got)
\* A file that was cut off between two runs loses only its end; elsewhere it is noticed.
CutPrefix == ph = "done" /\ fault = "cut" => got \subseteq FilledModel
\* Nothing is placed outside of the grid, and no voxel has two values.
InGrid == at <= Total(n) /\ (\A v \in got : \A i \in 1..3 : v[i] \in 0..n[i]-1)
          /\ Cardinality({SubSeq(v, 1, 3) : v \in got}) = Cardinality(got)
\* Positions in the file and indices correspond.
PosCell == \A p \in 0..Total(n)-1 : Pos(n, Cell(n, p)) = p /\ Cell(n, p) \in Voxels(n)

Ends == <>Finished
=============================================================================

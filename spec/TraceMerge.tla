----------------------------- MODULE TraceMerge ----------------------------
(* Merges of the real stl.Merge, with the files of which are being read at     *)
(* each moment (C17), and runs of the merge tools (C25).                       *)
EXTENDS ShellMerge, SequencesExt, TLC, Events

SetOf(s) == {s[i] : i \in DOMAIN s}
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(s, t) == /\ Len(s) = Len(t)
                 /\ LET S == TLCEval(SetOf(s))  T == TLCEval(SetOf(t))
                    IN S = T /\ (Cardinality(S) = Len(s) \/ \A x \in S : Count(s, x) = Count(t, x))
Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)

\* e.files: [bad, ids]: whether a file can be read, and its triangles.
\* e.log: [waiting, release]: the files that are being read at that moment, and the one that is then let through.
Abnormal(e) == IF e.exit = 99 THEN "crashed" ELSE IF e.exit = 98 THEN "hangs" ELSE ""
Before(e, k) == {e.log[i].release : i \in 1..k-1}
LogWhy(e) ==
    LET step(k) == LET w == SetOf(e.log[k].waiting) IN
                   IF Cardinality(w) > e.num THEN "too many files are read at the same time"
                   ELSE IF ~(w \subseteq DOMAIN e.files) \/ e.log[k].release \notin w \/ w \cap Before(e, k) # {} THEN "the driver is wrong" ELSE ""
        b == {k \in DOMAIN e.log : step(k) # ""}
    IN IF b = {} THEN "" ELSE step(CHOOSE k \in b : TRUE)
VerdictC17(e) ==
    IF e.op = "race" THEN "data race"
    ELSE IF Abnormal(e) # "" THEN Abnormal(e)
    ELSE IF LogWhy(e) # "" THEN LogWhy(e)
    ELSE IF e.num < 1 THEN IF e.ok THEN "no workers, but no error" ELSE ""
    ELSE IF \E f \in SetOf(e.files) : f.bad THEN IF e.ok THEN "a failure was lost" ELSE ""
    ELSE IF ~e.ok THEN IF e.files = <<>> THEN "" ELSE "failed"
    ELSE IF ~SameBag(Flat([i \in DOMAIN e.files |-> e.files[i].ids]), e.got) THEN "not exactly the triangles of all files" ELSE ""

-----------------------------------------------------------------------------
(* C25: e.files are the files that match; e.old: whether the output existed.   *)
OutputWhy(e) ==
    IF e.tool = "merge-stl"
    THEN IF SameBag(Flat([i \in DOMAIN e.files |-> e.files[i].ids]), e.got) THEN "" ELSE "not exactly the triangles of all files"
    ELSE LET all == UNION {SetOf(e.files[i].ids) : i \in DOMAIN e.files}
             q == [i \in 1..3 |-> (e.pos[i] + 500) \div 1000]
             got == {<<v[1] + q[1], v[2] + q[2], v[3] + q[3], v[4]>> : v \in SetOf(e.got)}
         IN IF all = {} THEN IF e.got = <<>> THEN "" ELSE "voxels out of nothing"
            ELSE IF \E i \in 1..3 : e.pos[i] - 1000 * q[i] > 5 \/ e.pos[i] - 1000 * q[i] < -5 THEN "the voxels moved"
            ELSE IF got # ShellOf(all) \/ Cardinality(got) # Len(e.got) THEN "not the shell of all models" ELSE ""
VerdictC25(e) ==
    IF Abnormal(e) # "" THEN Abnormal(e)
    ELSE IF e.changed THEN "changed or created another file"
    ELSE IF e.old /\ ~e.force THEN IF e.exit = 0 THEN "overwrites, or no error" ELSE IF e.same THEN "" ELSE "the existing output was touched"
    ELSE IF e.files = <<>> \/ e.num < 1 \/ e.mismatch \/ \E f \in SetOf(e.files) : f.bad
         THEN IF e.exit = 0 THEN "no error" ELSE IF ~e.old /\ ~e.same THEN "an output in spite of the error" ELSE ""
    ELSE IF e.full THEN IF e.exit = 0 THEN "the output could not be written, but no error" ELSE ""
    ELSE IF e.exit # 0 THEN "failed"
    ELSE IF Has(e, "unreadable") THEN "no output, or malformed" ELSE OutputWhy(e)
=============================================================================

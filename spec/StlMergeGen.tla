---------------------------- MODULE StlMergeGen ----------------------------
(* Merges for the real code: which files are bad, how many slots there are,    *)
(* and in which order reading the files ends when there is a choice.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT MaxN
VARIABLE x
Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}
Init == \E n \in 0..MaxN : \E bad \in SUBSET (1..n), p \in Perms(n), num \in 0..n+1 :
          x = [n |-> n, bad |-> bad, prio |-> [i \in 1..n |-> p[i]], num |-> num]
Spec == Init /\ [][FALSE]_x
Emit == PrintT("CASE " \o ToJson(x)) /\ FALSE
=============================================================================

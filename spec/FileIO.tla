------------------------------- MODULE FileIO -------------------------------
(* When an operation on a file may report success, given the system calls that *)
(* it made about the file, in order.  A call is a record                       *)
(*   [c |-> what it does, ok |-> whether it succeeded, n |-> bytes moved].     *)
(* `total' is the number of bytes that the operation reads when nothing fails. *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Moved(_, _, _)
Moved(calls, c, k) == IF k = 0 THEN 0 ELSE Moved(calls, c, k - 1) + (IF calls[k].c = c /\ calls[k].ok THEN calls[k].n ELSE 0)

\* The failure of call k means that the operation did not do its work:
\* content that is still to come was not read, or what was written may not be stored.
Matters(calls, total, k) ==
    /\ ~calls[k].ok
    /\ CASE calls[k].c = "read" -> Moved(calls, "read", k - 1) < total
         [] calls[k].c \in {"open", "write", "sync", "rename"} -> TRUE
         [] calls[k].c = "close" -> /\ \E j \in 1..k-1 : calls[j].c = "open"
                                    /\ ~\E j \in 1..k-1 : calls[j].c = "sync" /\ calls[j].ok
         [] OTHER -> FALSE
Hidden(calls, total) == {k \in DOMAIN calls : Matters(calls, total, k)}
MaySucceed(calls, total) == Hidden(calls, total) = {}
=============================================================================

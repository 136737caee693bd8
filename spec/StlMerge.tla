------------------------------ MODULE StlMerge -----------------------------
(* The merge of STL files by a pool of workers: a dispatcher starts a worker   *)
(* for the next file when there is a free slot; a worker reads its file and    *)
(* then, under a mutex, adds it to the mesh or notes the failure; the merge    *)
(* ends when all workers have ended.                                           *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS N,         \* number of files
          Nums,      \* numbers of slots
          Locking,   \* FALSE: a design without the mutex (for comparison)
          Early      \* TRUE: a design that frees the slot before it reads (for comparison)
VARIABLES num, bad, next, stage, copy, mesh, fail, lock, slots, ret
vars == <<num, bad, next, stage, copy, mesh, fail, lock, slots, ret>>
F == 1..N

Init == /\ num \in Nums /\ bad \in SUBSET F
        /\ next = 1 /\ stage = [f \in F |-> "idle"] /\ copy = [f \in F |-> <<>>]
        /\ mesh = <<>> /\ fail = FALSE /\ lock = 0 /\ slots = 0 /\ ret = ""
Refuse == /\ ret = "" /\ num < 1 /\ ret' = "error"
          /\ UNCHANGED <<num, bad, next, stage, copy, mesh, fail, lock, slots>>
Dispatch == /\ num >= 1 /\ next <= N /\ slots < num
            /\ stage' = [stage EXCEPT ![next] = "read"] /\ next' = next + 1
            /\ slots' = IF Early THEN slots ELSE slots + 1
            /\ UNCHANGED <<num, bad, copy, mesh, fail, lock, ret>>
Read(f) == /\ stage[f] = "read" /\ stage' = [stage EXCEPT ![f] = IF Locking THEN "lock" ELSE "look"]
           /\ UNCHANGED <<num, bad, next, copy, mesh, fail, lock, slots, ret>>
Lock(f) == /\ stage[f] = "lock" /\ lock = 0 /\ lock' = f /\ stage' = [stage EXCEPT ![f] = "look"]
           /\ UNCHANGED <<num, bad, next, copy, mesh, fail, slots, ret>>
Look(f) == /\ stage[f] = "look" /\ copy' = [copy EXCEPT ![f] = mesh] /\ stage' = [stage EXCEPT ![f] = "store"]
           /\ UNCHANGED <<num, bad, next, mesh, fail, lock, slots, ret>>
Store(f) == /\ stage[f] = "store"
            /\ IF f \in bad THEN fail' = TRUE /\ UNCHANGED mesh ELSE mesh' = Append(copy[f], f) /\ UNCHANGED fail
            /\ copy' = [copy EXCEPT ![f] = <<>>]
            /\ lock' = (IF Locking THEN 0 ELSE lock) /\ stage' = [stage EXCEPT ![f] = "release"]
            /\ UNCHANGED <<num, bad, next, slots, ret>>
Release(f) == /\ stage[f] = "release" /\ stage' = [stage EXCEPT ![f] = "done"] /\ slots' = IF Early THEN slots ELSE slots - 1
              /\ UNCHANGED <<num, bad, next, copy, mesh, fail, lock, ret>>
Return == /\ ret = "" /\ num >= 1 /\ next > N /\ \A f \in F : stage[f] = "done"
          /\ ret' = IF fail THEN "error" ELSE "ok"
          /\ UNCHANGED <<num, bad, next, stage, copy, mesh, fail, lock, slots>>
Next == Refuse \/ Dispatch \/ Return \/ \E f \in F : Read(f) \/ Lock(f) \/ Look(f) \/ Store(f) \/ Release(f)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* C17
Reading == {f \in F : stage[f] = "read"}
Bounded == Cardinality(Reading) <= num \/ num < 1
NoneLost == /\ ret = "ok" => bad = {} /\ num >= 1 /\ Len(mesh) = N /\ {mesh[i] : i \in DOMAIN mesh} = F
            /\ ret = "error" => bad # {} \/ num < 1
Ends == <>(ret # "")
=============================================================================

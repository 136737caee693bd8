----------------------------- MODULE VoxelizeMC ----------------------------
(* Design of the voxelization of a layer: for every row of voxels a goroutine  *)
(* goes along the row, counts how many solids it is in, and adds voxels to the *)
(* one map of the model under a mutex.  In every schedule the map ends up with *)
(* exactly the voxels that the solids reach, and only voxels of the region.    *)
EXTENDS Voxelize, Json

CONSTANTS W,        \* voxels in a row of the region
          Rows,     \* rows
          Places,   \* where surfaces may be
          Locking   \* FALSE: a design without the mutex (for comparison)

VARIABLES ivals,    \* ivals[r]: the solids along row r
          at,       \* at[r]: the voxel that row r looks at next
          wind,     \* wind[r]: how many solids row r is in
          stage,    \* what row r does: "look", "lock", "read", "write", "done"
          copy,     \* copy[r]: the map as row r has read it
          map, lock
vars == <<ivals, at, wind, stage, copy, map, lock>>

Interval == {v \in Places \X Places : v[1] < v[2]}
Sections == {{}} \cup {{v, w} : v \in Interval, w \in Interval}
First(r) == IF ivals[r] = {} THEN W ELSE Floor(CHOOSE a \in {v[1] : v \in ivals[r]} : \A v \in ivals[r] : a <= v[1])
Init ==
    /\ ivals \in {f \in [Rows -> Sections] : \A r \in Rows \ {1} : Cardinality(f[r]) <= 1}
    /\ at = [r \in Rows |-> First(r)]
    /\ wind = [r \in Rows |-> 0]
    /\ stage = [r \in Rows |-> "look"]
    /\ copy = [r \in Rows |-> {}] /\ map = {} /\ lock = 0
Look(r) ==
    /\ stage[r] = "look"
    /\ IF at[r] >= W THEN stage' = [stage EXCEPT ![r] = "done"] /\ UNCHANGED <<at, wind>>
       ELSE LET i == at[r]
                w == wind[r] + Enters(ivals[r], i) - Leaves(ivals[r], i)
                surface == Enters(ivals[r], i) + Leaves(ivals[r], i) > 0
            IN /\ wind' = [wind EXCEPT ![r] = w]
               /\ IF i >= 0 /\ (surface \/ w > 0)
                  THEN stage' = [stage EXCEPT ![r] = IF Locking THEN "lock" ELSE "read"] /\ UNCHANGED at
                  ELSE at' = [at EXCEPT ![r] = i + 1] /\ UNCHANGED stage
    /\ UNCHANGED <<ivals, copy, map, lock>>
Lock(r) == /\ stage[r] = "lock" /\ lock = 0
           /\ lock' = r /\ stage' = [stage EXCEPT ![r] = "read"]
           /\ UNCHANGED <<ivals, at, wind, copy, map>>
Read(r) == /\ stage[r] = "read"
           /\ copy' = [copy EXCEPT ![r] = map] /\ stage' = [stage EXCEPT ![r] = "write"]
           /\ UNCHANGED <<ivals, at, wind, map, lock>>
Write(r) == /\ stage[r] = "write"
            /\ map' = copy[r] \cup {<<at[r], r>>}
            /\ copy' = [copy EXCEPT ![r] = {}]
            /\ at' = [at EXCEPT ![r] = @ + 1] /\ stage' = [stage EXCEPT ![r] = "look"]
            /\ lock' = IF Locking THEN 0 ELSE lock
            /\ UNCHANGED <<ivals, wind>>
Next == \E r \in Rows : Look(r) \/ Lock(r) \/ Read(r) \/ Write(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Few == {-10, -2, 3, 6, 13, 26}
Many == {-10, -2, 3, 6, 13, 15, 22, 35}

Done == \A r \in Rows : stage[r] = "done"
Want == UNION {{<<i, r>> : i \in RowFill(W, ivals[r])} : r \in Rows}
OnlySolid == map \subseteq Want
Exact == Done => map = Want
Mutex == Cardinality({r \in Rows : stage[r] \in {"read", "write"}}) <= 1
Ends == <>Done
=============================================================================

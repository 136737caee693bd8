------------------------------- MODULE Remote -------------------------------
(* The SVX service as processes: a client that loads its models, asks the      *)
(* master for the archive and stores it; a master; and agents that register    *)
(* an address with the master when they start. All of them may be killed at    *)
(* any time, and the master started again (it knows nothing then).             *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Agents, Layers,
          MaxKills,      \* of agents
          MaxRestarts,   \* of the master
          \* Designs that are wrong in some way, for comparison; all FALSE is the intended one.
          IgnoreError,   \* the client takes any answer for an archive
          Unreachable,   \* some agents register an address at which nobody reaches them
          EarlyFile,     \* the client creates the file before it asks
          IgnoreFull     \* the client does not notice that the file is not stored completely

VARIABLES loads, sound, fits,     \* of the request: the models can be loaded, it is sound, its archive can be stored
          master,                 \* "up", "down"
          agent,                  \* of each agent: "absent", "up", "dead"
          lost,                   \* agents that registered an address at which nobody reaches them
          idle,                   \* agents that the master takes for idle
          work,                   \* of each layer: 0 (not assigned), an agent, or Done
          client,                 \* "load", "ask", "wait", "store", "ok", "error", "killed"
          answer,                 \* "none", "error", "archive"
          file,                   \* "old", "part", "full"
          kills, restarts
Done == 100
vars == <<loads, sound, fits, master, agent, lost, idle, work, client, answer, file, kills, restarts>>

Init == /\ loads \in BOOLEAN /\ sound \in BOOLEAN /\ fits \in BOOLEAN
        /\ master = "up" /\ agent = [a \in Agents |-> "absent"] /\ lost = {} /\ idle = {}
        /\ work = [l \in Layers |-> 0] /\ client = "load" /\ answer = "none" /\ file = "old"
        /\ kills = 0 /\ restarts = 0

Request == <<loads, sound, fits>>
Start(a) == /\ agent[a] = "absent" /\ master = "up"      \* (an agent without a master ends at once)
            /\ agent' = [agent EXCEPT ![a] = "up"] /\ idle' = idle \cup {a}
            /\ lost' \in (IF Unreachable THEN {lost, lost \cup {a}} ELSE {lost})
            /\ UNCHANGED <<Request, master, work, client, answer, file, kills, restarts>>
Kill(a) == /\ agent[a] = "up" /\ kills < MaxKills
           /\ agent' = [agent EXCEPT ![a] = "dead"] /\ kills' = kills + 1
           /\ UNCHANGED <<Request, master, lost, idle, work, client, answer, file, restarts>>
Fresh(a) == /\ agent[a] = "dead" /\ agent' = [agent EXCEPT ![a] = "absent"]    \* another agent, at another address
            /\ a \notin idle /\ \A l \in Layers : work[l] # a
            /\ lost' = lost \ {a}
            /\ UNCHANGED <<Request, master, idle, work, client, answer, file, kills, restarts>>
MasterDies == /\ master = "up" /\ restarts < MaxRestarts /\ master' = "down" /\ restarts' = restarts + 1
              /\ idle' = {} /\ work' = [l \in Layers |-> 0]
              /\ client' = IF client = "wait" THEN "error" ELSE client
              /\ agent' = [a \in Agents |-> IF agent[a] = "up" THEN "dead" ELSE agent[a]]  \* (of no use to the next master)
              /\ UNCHANGED <<Request, lost, answer, file, kills>>
MasterStarts == /\ master = "down" /\ master' = "up"
                /\ UNCHANGED <<Request, agent, lost, idle, work, client, answer, file, kills, restarts>>

Load == /\ client = "load" /\ client' = IF loads THEN "ask" ELSE "error"
        /\ file' = IF EarlyFile THEN "part" ELSE file
        /\ UNCHANGED <<Request, master, agent, lost, idle, work, answer, kills, restarts>>
Ask == /\ client = "ask"
       /\ client' = IF master = "down" THEN "error" ELSE "wait"
       /\ UNCHANGED <<Request, master, agent, lost, idle, work, answer, file, kills, restarts>>
Assign(l, a) == /\ client = "wait" /\ answer = "none" /\ sound /\ work[l] = 0 /\ a \in idle
                /\ work' = [work EXCEPT ![l] = a] /\ idle' = idle \ {a}
                /\ UNCHANGED <<Request, master, agent, lost, client, answer, file, kills, restarts>>
Sliced(l, a) == /\ work[l] = a /\ agent[a] = "up" /\ a \notin lost
                /\ work' = [work EXCEPT ![l] = Done] /\ idle' = idle \cup {a}
                /\ UNCHANGED <<Request, master, agent, lost, client, answer, file, kills, restarts>>
Lost(l, a) == /\ work[l] = a /\ (agent[a] # "up" \/ a \in lost)
              /\ work' = [work EXCEPT ![l] = 0]
              /\ UNCHANGED <<Request, master, agent, lost, idle, client, answer, file, kills, restarts>>
Answer == /\ client = "wait" /\ answer = "none"
          /\ \/ ~sound /\ answer' = "error"
             \/ sound /\ (\A l \in Layers : work[l] = Done) /\ answer' = "archive"
          /\ UNCHANGED <<Request, master, agent, lost, idle, work, client, file, kills, restarts>>
Receive == /\ client = "wait" /\ answer # "none"
           /\ client' = IF answer = "error" /\ ~IgnoreError THEN "error" ELSE "store"
           /\ UNCHANGED <<Request, master, agent, lost, idle, work, answer, file, kills, restarts>>
Store == /\ client = "store"
         /\ \/ file # "part" /\ file' = "part" /\ client' = client
            \/ fits /\ file = "part" /\ file' = "full" /\ client' = "ok"
            \/ ~fits /\ file' = file /\ client' = IF IgnoreFull THEN "ok" ELSE "error"
         /\ UNCHANGED <<Request, master, agent, lost, idle, work, answer, kills, restarts>>
KillClient == /\ client \in {"ask", "wait", "store"} /\ client' = "killed"
              /\ UNCHANGED <<Request, master, agent, lost, idle, work, answer, file, kills, restarts>>

Service == Load \/ Ask \/ Answer \/ Receive \/ Store \/ \E l \in Layers, a \in Agents : Assign(l, a) \/ Sliced(l, a) \/ Lost(l, a)
Next == \/ Service \/ MasterDies \/ MasterStarts \/ KillClient
        \/ \E a \in Agents : Start(a) \/ Kill(a) \/ Fresh(a)
Spec == Init /\ [][Next]_vars
        /\ WF_vars(Service) /\ WF_vars(MasterStarts) /\ WF_vars(Load) /\ WF_vars(Ask) /\ WF_vars(Answer) /\ WF_vars(Receive) /\ WF_vars(Store)
        /\ \A a \in Agents : /\ WF_vars(Start(a)) /\ WF_vars(Fresh(a))
                             /\ \A l \in Layers : WF_vars(Assign(l, a)) /\ WF_vars(Sliced(l, a)) /\ WF_vars(Lost(l, a))

ExitZero == client = "ok" => file = "full" /\ answer = "archive" /\ sound
NoFile == file # "old" => answer = "archive"
Failure == client = "error" => file # "full"
Ends == <>(client \in {"ok", "error", "killed"})
Served == loads /\ sound /\ fits => <>(client \in {"ok", "killed"} \/ restarts > 0)
Refused == ~loads \/ ~sound \/ ~fits => [](client # "ok")
=============================================================================

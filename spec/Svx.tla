-------------------------------- MODULE Svx --------------------------------
(* The SVX service: a master that gives the layers of its jobs to registered   *)
(* agents, one goroutine per layer, and collects their images into the archive *)
(* of the job. Clients start and cancel jobs; agents answer with an image or   *)
(* an error, die and come back at any time.                                    *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Jobs, Agents,
          Layers,      \* number of layers of every job
          MaxDeaths, MaxErrors, MaxCancels,
          \* Designs that are wrong in some way, for comparison; all FALSE is the intended one.
          FreeOnCancel,    \* a cancelled call frees its agent at once, though the agent still works on it
          LoseOnError,     \* an agent that answers with an error is forgotten
          KeepOnLoss,      \* an agent that was lost counts as idle again
          FailOnLoss,      \* a lost agent fails its job
          OneArchive,      \* all jobs write to the archive of the job that started last
          NoCancel         \* the layers of a failed or cancelled job that have no agent keep waiting for one
VARIABLES job,      \* of each job: none, run, stop (failed or cancelled, but layers may be active), ok, error
          asked,    \* the jobs that their clients have cancelled
          cause,    \* of each job: "", "error", "cancel"
          layer,    \* of each job and layer: wait, call, bad (an error came back), done, gone
          archive,  \* of each job: the sequence of <<job, layer>> of the images
          current,  \* the job that started last
          idle,     \* the agents that the master believes to be idle
          up,       \* the agents that are alive
          calls,    \* [agent, job, layer, st]: calls in progress; st: sent, work, ok, err (answered), lost (its agent died)
          deaths, errors, cancels
vars == <<job, asked, cause, layer, archive, current, idle, up, calls, deaths, errors, cancels>>
L == 1..Layers

Init == /\ job = [j \in Jobs |-> "none"] /\ asked = {} /\ cause = [j \in Jobs |-> ""]
        /\ layer = [j \in Jobs |-> <<>>]
        /\ archive = [j \in Jobs |-> <<>>] /\ current = 0
        /\ idle = Agents /\ up = Agents /\ calls = {}
        /\ deaths = 0 /\ errors = 0 /\ cancels = 0

-----------------------------------------------------------------------------
(* clients *)
StartWith(j, n) == /\ job[j] = "none"
                   /\ job' = [job EXCEPT ![j] = "run"] /\ layer' = [layer EXCEPT ![j] = [z \in 1..n |-> "wait"]]
                   /\ current' = j
                   /\ UNCHANGED <<asked, cause, archive, idle, up, calls, deaths, errors, cancels>>
Start(j) == StartWith(j, Layers)
Cancel(j) == /\ job[j] \in {"run", "stop"} /\ j \notin asked /\ cancels < MaxCancels
             /\ asked' = asked \cup {j} /\ cancels' = cancels + 1
             /\ UNCHANGED <<job, cause, layer, archive, current, idle, up, calls, deaths, errors>>

(* agents *)
Receive(c) == /\ c.st = "sent" /\ calls' = (calls \ {c}) \cup {[c EXCEPT !.st = "work"]}
              /\ UNCHANGED <<job, asked, cause, layer, archive, current, idle, up, deaths, errors, cancels>>
Answer(c) == /\ c.st = "work" /\ \E st \in {"ok", "err"} :
                /\ st = "err" => errors < MaxErrors
                /\ errors' = errors + (IF st = "err" THEN 1 ELSE 0)
                /\ calls' = (calls \ {c}) \cup {[c EXCEPT !.st = st]}
             /\ UNCHANGED <<job, asked, cause, layer, archive, current, idle, up, deaths, cancels>>
Die(a) == /\ a \in up /\ deaths < MaxDeaths
          /\ up' = up \ {a} /\ deaths' = deaths + 1
          /\ \E late \in SUBSET {c \in calls : c.agent = a /\ c.st \in {"ok", "err"}} : \* answers that do not arrive any more
               calls' = {IF c.agent = a /\ (c.st \in {"sent", "work"} \/ c \in late) THEN [c EXCEPT !.st = "lost"] ELSE c : c \in calls}
          /\ UNCHANGED <<job, asked, cause, layer, archive, current, idle, errors, cancels>>
\* An agent comes back and registers. (If that were possible while an answer that it gave before is still on its way, the
\* master could take the answer for one of the new agent: TLC shows that. Starting an agent takes longer.)
Return(a) == /\ a \notin up /\ {c \in calls : c.agent = a /\ c.st \in {"ok", "err"}} = {}
             /\ up' = up \cup {a} /\ idle' = idle \cup {a}
             /\ UNCHANGED <<job, asked, cause, layer, archive, current, calls, deaths, errors, cancels>>

(* master *)
Notice(j) == /\ job[j] = "run" /\ j \in asked
             /\ job' = [job EXCEPT ![j] = "stop"] /\ cause' = [cause EXCEPT ![j] = "cancel"]
             /\ UNCHANGED <<asked, layer, archive, current, idle, up, calls, deaths, errors, cancels>>
Assign(j, z, a) == /\ z \in DOMAIN layer[j] /\ layer[j][z] = "wait" /\ a \in idle
                   /\ job[j] = "run" \/ NoCancel
                   /\ idle' = idle \ {a} /\ layer' = [layer EXCEPT ![j][z] = "call"]
                   /\ calls' = calls \cup {[agent |-> a, job |-> j, layer |-> z, st |-> IF a \in up THEN "sent" ELSE "lost"]}
                   /\ UNCHANGED <<job, asked, cause, archive, current, up, deaths, errors, cancels>>
Waits(c) == layer[c.job][c.layer] = "call"   \* whether the layer still waits for the call
Stop(j, why) == IF job[j] = "run" THEN /\ job' = [job EXCEPT ![j] = "stop"] /\ cause' = [cause EXCEPT ![j] = why]
                ELSE UNCHANGED <<job, cause>>
Image(c) == /\ c.st = "ok" /\ calls' = calls \ {c} /\ idle' = idle \cup {c.agent}
            /\ IF Waits(c) THEN /\ layer' = [layer EXCEPT ![c.job][c.layer] = "done"]
                                /\ archive' = [archive EXCEPT ![IF OneArchive THEN current ELSE c.job] = Append(@, <<c.job, c.layer>>)]
               ELSE UNCHANGED <<layer, archive>>
            /\ UNCHANGED <<job, asked, cause, current, up, deaths, errors, cancels>>
\* The agent is free before its error has ended the job, so that it may still get another layer of it.
Failed(c) == /\ c.st = "err" /\ calls' = calls \ {c} /\ idle' = (IF LoseOnError THEN idle ELSE idle \cup {c.agent})
             /\ layer' = IF Waits(c) THEN [layer EXCEPT ![c.job][c.layer] = "bad"] ELSE layer
             /\ UNCHANGED <<job, asked, cause, archive, current, up, deaths, errors, cancels>>
Fail(j, z) == /\ z \in DOMAIN layer[j] /\ layer[j][z] = "bad"
              /\ layer' = [layer EXCEPT ![j][z] = "gone"] /\ Stop(j, "error")
              /\ UNCHANGED <<asked, archive, current, idle, up, calls, deaths, errors, cancels>>
Lost(c) == /\ c.st = "lost" /\ calls' = calls \ {c} /\ idle' = (IF KeepOnLoss THEN idle \cup {c.agent} ELSE idle)
           /\ IF ~Waits(c) THEN UNCHANGED <<layer, job, cause>>
              ELSE IF FailOnLoss THEN layer' = [layer EXCEPT ![c.job][c.layer] = "gone"] /\ Stop(c.job, "error")
              ELSE layer' = [layer EXCEPT ![c.job][c.layer] = "wait"] /\ UNCHANGED <<job, cause>>
           /\ UNCHANGED <<asked, archive, current, up, deaths, errors, cancels>>
\* A layer notices that its job has failed or is cancelled. Its call goes on: the agent is not idle before it answers.
GiveUp(j, z) == /\ z \in DOMAIN layer[j] /\ job[j] = "stop" /\ layer[j][z] \in (IF NoCancel THEN {} ELSE {"wait", "call"})
                /\ layer' = [layer EXCEPT ![j][z] = "gone"]
                /\ LET c == {x \in calls : x.job = j /\ x.layer = z /\ Waits(x)} IN
                   IF FreeOnCancel /\ c # {} THEN \* the agent works on, but nobody knows
                      idle' = idle \cup {x.agent : x \in c}
                   ELSE UNCHANGED idle
                /\ UNCHANGED <<job, asked, cause, archive, current, up, calls, deaths, errors, cancels>>
End(j) == /\ job[j] \in {"run", "stop"} /\ \A z \in DOMAIN layer[j] : layer[j][z] \in {"done", "gone"}
          /\ job' = [job EXCEPT ![j] = IF @ = "run" THEN "ok" ELSE "error"]
          /\ UNCHANGED <<asked, cause, layer, archive, current, idle, up, calls, deaths, errors, cancels>>

Master == \/ \E j \in Jobs : End(j) \/ Notice(j) \/ \E z \in DOMAIN layer[j] : Fail(j, z) \/ GiveUp(j, z) \/ \E a \in Agents : Assign(j, z, a)
          \/ \E c \in calls : Image(c) \/ Failed(c) \/ Lost(c)
Next == \/ Master \/ \E j \in Jobs : Start(j) \/ Cancel(j)
        \/ \E a \in Agents : Die(a) \/ Return(a)
        \/ \E c \in calls : Receive(c) \/ Answer(c)
\* Agents answer, and the dead ones come back some time; every goroutine of the master goes on.
Fair == /\ \A j \in Jobs : WF_vars(End(j)) /\ WF_vars(Notice(j)) /\ \A z \in L : WF_vars(GiveUp(j, z)) /\ WF_vars(Fail(j, z)) /\ SF_vars(\E a \in Agents : Assign(j, z, a))
        /\ \A a \in Agents : WF_vars(Return(a)) /\ \A j \in Jobs, z \in L :
             \A st \in {"sent", "work", "ok", "err", "lost"} : LET c == [agent |-> a, job |-> j, layer |-> z, st |-> st] IN
                WF_vars(c \in calls /\ (Receive(c) \/ Answer(c) \/ Image(c) \/ Failed(c) \/ Lost(c)))
Spec == Init /\ [][Next]_vars /\ Fair

-----------------------------------------------------------------------------
(* C18 *)
Complete == \A j \in Jobs : job[j] = "ok" =>
              /\ Len(archive[j]) = Len(layer[j]) /\ {archive[j][i] : i \in DOMAIN archive[j]} = {<<j, z>> : z \in DOMAIN layer[j]}
ErrorsShow == \A j \in Jobs : cause[j] # "" => job[j] \in {"stop", "error"}
(* C19: a job fails on its own account only *)
NoneMixed == \A j \in Jobs : \A i \in DOMAIN archive[j] : archive[j][i][1] = j
OwnFailure == \A j \in Jobs : /\ job[j] \in {"stop", "error"} => cause[j] # ""
                              /\ Cardinality({k \in Jobs : cause[k] = "error"}) <= errors
(* C20 *)
Works(a) == {c \in calls : c.agent = a /\ c.st \in {"sent", "work"}}
OneAtATime == \A a \in Agents : Cardinality(Works(a)) <= 1 /\ (a \in idle => Works(a) = {})
NeverLost == \A a \in up : a \in idle \/ \E c \in calls : c.agent = a /\ c.st \in {"sent", "work", "ok", "err"}
Ends == \A j \in Jobs : job[j] # "none" ~> job[j] \in {"ok", "error"}
CancelEnds == \A j \in Jobs : job[j] = "stop" \/ j \in asked ~> job[j] \in {"ok", "error"}
=============================================================================

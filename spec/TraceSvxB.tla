------------------------------ MODULE TraceSvxB ----------------------------
(* Which logs of the real master are behaviours of Svx. Prints "ACCEPT t" for  *)
(* log t.                                                                      *)
EXTENDS Svx, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
CONSTANT Trim
VARIABLES t, k   \* the log, and the next entry of it
tvars == <<vars, t, k>>
Logs == {i \in DOMAIN Trace : Trace[i].op = "svx"}
TraceInit == /\ Init /\ t \in Logs /\ k = 1
Log == Trace[t].log
Has(e, f) == f \in DOMAIN e
\* Nothing is left to do in the master.
Quiet == /\ \A j \in Jobs : ~ENABLED End(j) /\ ~ENABLED Notice(j) /\ \A z \in DOMAIN layer[j] : ~ENABLED GiveUp(j, z) /\ layer[j][z] # "bad"
         /\ \A c \in calls : c.st = "work"
         /\ idle \cap up = {} \/ \A j \in Jobs : job[j] = "run" => \A z \in DOMAIN layer[j] : layer[j][z] # "wait"
Call(e) == CHOOSE c \in calls : c.agent = e.a /\ c.job = e.j /\ c.layer = e.z
HasCall(e, st) == \E c \in calls : c.agent = e.a /\ c.job = e.j /\ c.layer = e.z /\ c.st = st
See(e) ==
    CASE e.ev = "register" -> Return(e.a)
      [] e.ev = "die"      -> Die(e.a)
      [] e.ev = "job"      -> StartWith(e.j, e.layers)
      [] e.ev = "cancel"   -> IF job[e.j] \in {"run", "stop"} THEN Cancel(e.j) ELSE UNCHANGED vars
      [] e.ev = "call"     -> \E c \in calls : c.agent = e.a /\ c.job = e.j /\ c.layer = e.z /\ Receive(c)
      [] e.ev = "reply"    -> \E c \in calls : c.agent = e.a /\ c.job = e.j /\ c.layer = e.z /\ Answer(c)
                                 /\ [c EXCEPT !.st = e.st] \in calls'
      [] e.ev = "end"      -> End(e.j) /\ job'[e.j] = (IF e.ok THEN "ok" ELSE "error")
      [] e.ev = "quiet"    -> Quiet /\ UNCHANGED vars

(* Hidden steps can be put off until they matter, or taken at once if nothing  *)
(* can depend on their coming later; with Trim, TLC explores those orders only.*)
\* The next entry about an agent's fate or work.
NextOf(a) == LET S == {i \in k..Len(Log) : Log[i].ev \in {"call", "die"} /\ Log[i].a = a}
             IN IF S = {} THEN [ev |-> "none"] ELSE Log[CHOOSE i \in S : \A m \in S : i <= m]
\* At once: the answer arrives, unless the agent dies and may take it along; the loss of an agent is noticed.
AtOnce == {c \in calls : (c.st = "ok" /\ NextOf(c.agent).ev # "die") \/ c.st = "lost"}
AssignNow(j, z, a) ==
    LET n == NextOf(a) IN
    /\ n.ev = "call" /\ n.j = j /\ n.z = z
    /\ \/ Log[k] = n
       \/ Log[k].ev = "end" /\ Log[k].j = j
Hidden ==
    IF ~Trim THEN \/ \E j \in Jobs : Notice(j) \/ \E z \in DOMAIN layer[j] : Fail(j, z) \/ GiveUp(j, z) \/ \E a \in Agents : Assign(j, z, a)
                  \/ \E c \in calls : Image(c) \/ Failed(c) \/ Lost(c)
    ELSE \/ \E j \in Jobs : Log[k].ev = "end" /\ Log[k].j = j /\ (Notice(j) \/ \E z \in DOMAIN layer[j] : Fail(j, z) \/ GiveUp(j, z))
         \/ \E j \in Jobs : \E z \in DOMAIN layer[j], a \in Agents : AssignNow(j, z, a) /\ Assign(j, z, a)
         \/ \E c \in calls : Image(c)
         \/ \E c \in calls : /\ Log[k].ev \in {"quiet", "end"} \/ (Log[k].ev = "call" /\ Log[k].a = c.agent)
                             /\ Failed(c)
TraceNext ==
    /\ k <= Len(Log)
    /\ IF Trim /\ AtOnce # {} THEN LET c == CHOOSE c \in AtOnce : TRUE IN (Image(c) \/ Lost(c)) /\ UNCHANGED <<t, k>>
       ELSE \/ See(Log[k]) /\ k' = k + 1 /\ UNCHANGED t /\ (k = Len(Log) => PrintT("ACCEPT " \o ToString(t)))
            \/ Hidden /\ UNCHANGED <<t, k>>
TraceInitEmpty == /\ job = [j \in Jobs |-> "none"] /\ asked = {} /\ cause = [j \in Jobs |-> ""] /\ layer = [j \in Jobs |-> <<>>]
                  /\ archive = [j \in Jobs |-> <<>>] /\ current = 0 /\ idle = {} /\ up = {} /\ calls = {}
                  /\ deaths = 0 /\ errors = 0 /\ cancels = 0 /\ t \in Logs /\ k = 1
=============================================================================

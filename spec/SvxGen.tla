------------------------------- MODULE SvxGen ------------------------------
(* Scripts of what clients and agents do: every sequence of Len commands that  *)
(* has an effect, when the master comes to rest after each of them. A command  *)
(* names the k-th working agent, running job and so on, as it is up to the     *)
(* master who works on what.                                                   *)
EXTENDS Svx, TLC, Json, Sequences
CONSTANTS Length, Start0     \* commands of a script, and agents in the beginning
VARIABLES script, start
GenInit == /\ job = [j \in Jobs |-> "none"] /\ asked = {} /\ cause = [j \in Jobs |-> ""] /\ layer = [j \in Jobs |-> <<>>]
           /\ archive = [j \in Jobs |-> <<>>] /\ current = 0
           /\ \E n \in Start0 : idle = 1..n /\ up = 1..n /\ start = n
           /\ calls = {} /\ deaths = 0 /\ errors = 0 /\ cancels = 0 /\ script = <<>>
Pick(S) == CHOOSE x \in S : TRUE
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Over == {c \in calls : c.st \in {"ok", "err", "lost"}}
BadLayers == {p \in Jobs \X L : p[2] \in DOMAIN layer[p[1]] /\ layer[p[1]][p[2]] = "bad"}
Noticed == {j \in Jobs : job[j] = "run" /\ j \in asked}
GivesUp == {p \in Jobs \X L : p[2] \in DOMAIN layer[p[1]] /\ job[p[1]] = "stop" /\ layer[p[1]][p[2]] \in {"wait", "call"}}
Ending == {j \in Jobs : job[j] \in {"run", "stop"} /\ \A z \in DOMAIN layer[j] : layer[j][z] \in {"done", "gone"}}
Waiting == {p \in Jobs \X L : p[2] \in DOMAIN layer[p[1]] /\ job[p[1]] = "run" /\ layer[p[1]][p[2]] = "wait"}
Sent == {c \in calls : c.st = "sent"}
\* The master at rest does nothing until something else happens.
AtRest == Over = {} /\ BadLayers = {} /\ Noticed = {} /\ GivesUp = {} /\ Ending = {} /\ (Waiting = {} \/ idle = {}) /\ Sent = {}
Work == IF Over # {} THEN LET c == Pick(Over) IN Image(c) \/ Failed(c) \/ Lost(c)
        ELSE IF BadLayers # {} THEN LET p == Pick(BadLayers) IN Fail(p[1], p[2])
        ELSE IF Noticed # {} THEN Notice(Pick(Noticed))
        ELSE IF GivesUp # {} THEN LET p == Pick(GivesUp) IN GiveUp(p[1], p[2])
        ELSE IF Ending # {} THEN End(Pick(Ending))
        ELSE IF Waiting # {} /\ idle # {} THEN LET p == Pick(Waiting) IN Assign(p[1], p[2], Least(idle))
        ELSE Receive(Pick(Sent))
Busy == {c \in calls : c.st = "work"}
Nth(S, x) == Cardinality({y \in S : y < x})
Key(c) == (c.job * 10 + c.layer) * 10 + c.agent
NthCall(c) == Nth({Key(x) : x \in Busy}, Key(c))
BusyAgents == {c.agent : c \in Busy}
Cmd(op, k, bad, n) == script' = Append(script, [Op |-> op, K |-> k, Bad |-> bad, N |-> n])
Alive(j) == job[j] \in {"run", "stop"}
Command ==
    \/ \E n \in L : LET free == {j \in Jobs : job[j] = "none"} IN free # {} /\ StartWith(Least(free), n) /\ Cmd("job", 0, FALSE, n)
    \/ \E j \in Jobs : Alive(j) /\ Cancel(j) /\ Cmd("cancel", Nth({i \in Jobs : Alive(i)}, j), FALSE, 0)
    \/ \E c \in Busy : Answer(c) /\ Cmd("reply", NthCall(c), errors' > errors, 0)
    \/ \E a \in Agents : Die(a) /\ LET w == a \in BusyAgents IN
                           Cmd("die", Nth({b \in up : (b \in BusyAgents) = w}, a), w, 0)
    \/ \E a \in Agents : a \notin up /\ Return(a) /\
         IF \E i \in DOMAIN script : script[i].Op = "die" THEN Cmd("return", 0, FALSE, 0) ELSE Cmd("register", 0, FALSE, 0)
GenNext == UNCHANGED start /\ IF ~AtRest THEN Work /\ UNCHANGED script
           ELSE IF Len(script) < Length THEN Command
           ELSE FALSE
Out == (AtRest /\ Len(script) = Length) =>
         PrintT("CASE " \o ToJson([Agents |-> start, Cmds |-> script]))
=============================================================================

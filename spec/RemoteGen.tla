----------------------------- MODULE RemoteGen -----------------------------
(* Scripts for the real processes: every sequence of Length commands that have *)
(* an effect. "agent": another agent starts; "kill", "freeze": an agent is     *)
(* killed (after it was frozen, so that it most probably works on a layer);    *)
(* "job": a client with a sound request starts; "bad": one whose request or    *)
(* output is unsound; "cancel": a client is killed; "master": the master is    *)
(* killed and started again; "wait": until all clients have ended.             *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Length, MaxAgents, MaxClients
VARIABLES script, agents, clients, restarts
Init == script = <<>> /\ agents = 0 /\ clients = 0 /\ restarts = 0
Cmd(op) == script' = Append(script, op)
Last(op) == script # <<>> /\ script[Len(script)] = op
Next ==
    \/ agents < MaxAgents /\ agents' = agents + 1 /\ Cmd("agent") /\ UNCHANGED <<clients, restarts>>
    \/ agents > 0 /\ agents' = agents - 1 /\ Cmd("kill") /\ UNCHANGED <<clients, restarts>>
    \/ agents > 0 /\ clients > 0 /\ agents' = agents - 1 /\ Cmd("freeze") /\ UNCHANGED <<clients, restarts>>
    \/ clients < MaxClients /\ clients' = clients + 1 /\ Cmd("job") /\ UNCHANGED <<agents, restarts>>
    \/ clients < MaxClients /\ ~Last("bad") /\ Cmd("bad") /\ UNCHANGED <<agents, clients, restarts>>
    \/ clients > 0 /\ clients' = clients - 1 /\ Cmd("cancel") /\ UNCHANGED <<agents, restarts>>
    \/ restarts = 0 /\ agents + clients > 0 /\ restarts' = 1 /\ agents' = 0 /\ clients' = 0 /\ Cmd("master")
    \/ agents > 0 /\ clients > 0 /\ clients' = 0 /\ Cmd("wait") /\ UNCHANGED <<agents, restarts>>
Out == IF Len(script) < Length THEN TRUE
       ELSE ((\E i \in 1..Length : script[i] \in {"job", "bad"}) => PrintT("CASE " \o ToJson([Cmds |-> script]))) /\ FALSE
=============================================================================

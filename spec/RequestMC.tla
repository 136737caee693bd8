----------------------------- MODULE RequestMC -----------------------------
(* How a request goes through the master and the agents, whose steps each need *)
(* some part of the request to be sound: a server that takes a step on an      *)
(* unsound part that it has not checked dies, and all that it works on is      *)
(* lost. TLC checks that unsound requests are refused and sound ones served    *)
(* whatever else is in progress.                                               *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Requests, Layers,
          MasterChecks, AgentChecks   \* which parts each server checks
\* The steps, with the part each one needs; only agents are asked for a layer.
Parts == <<"files", "vertices", "numbers", "size", "division", "cuts", "layer">>
NumParts == 7
VARIABLES bad,       \* the unsound parts of each request
          to,        \* to whom it is sent
          step,      \* how far the master has come with it
          slices,    \* how far the agents have come with its layers
          result,    \* "", "served" or "refused"
          up         \* which servers are alive ("master", "agent")
vars == <<bad, to, step, slices, result, up>>
Subsets == {S \in SUBSET {Parts[i] : i \in 1..NumParts} : Cardinality(S) <= 2}
\* The good request is number 1.
Init == /\ bad \in [Requests -> Subsets] /\ bad[1] = {}
        /\ to \in [Requests -> {"master", "agent"}]
        /\ \A r \in Requests : to[r] = "master" => "layer" \notin bad[r]
        /\ step = [r \in Requests |-> 0]
        /\ slices = [r \in Requests |-> IF to[r] = "agent" THEN <<0>> ELSE <<>>]
        /\ result = [r \in Requests |-> ""]
        /\ up = {"master", "agent"}
\* What comes of a step of a server with given checks: go on, refuse or die.
Outcome(r, i, checks) == IF Parts[i] \notin bad[r] THEN "on" ELSE IF Parts[i] \in checks THEN "refused" ELSE "dies"
MasterStep(r) ==
    /\ "master" \in up /\ to[r] = "master" /\ result[r] = "" /\ step[r] < NumParts - 1
    /\ LET o == Outcome(r, step[r] + 1, MasterChecks) IN
         /\ step' = [step EXCEPT ![r] = @ + 1]
         /\ result' = IF o = "refused" THEN [result EXCEPT ![r] = "refused"] ELSE result
         /\ up' = IF o = "dies" THEN up \ {"master"} ELSE up
         /\ slices' = IF o = "on" /\ step[r] + 1 = NumParts - 1 THEN [slices EXCEPT ![r] = [z \in 1..Layers |-> 0]] ELSE slices
    /\ UNCHANGED <<bad, to>>
AgentStep(r) == \E z \in DOMAIN slices[r] :
    /\ "agent" \in up /\ result[r] = "" /\ slices[r][z] < NumParts
    /\ LET o == Outcome(r, slices[r][z] + 1, AgentChecks) IN
         /\ slices' = [slices EXCEPT ![r][z] = @ + 1]
         /\ result' = IF o = "refused" THEN [result EXCEPT ![r] = "refused"]
                      ELSE IF o = "on" /\ \A y \in DOMAIN slices[r] : slices'[r][y] = NumParts THEN [result EXCEPT ![r] = "served"] ELSE result
         /\ up' = IF o = "dies" THEN up \ {"agent"} ELSE up
    /\ UNCHANGED <<bad, to, step>>
Next == \E r \in Requests : MasterStep(r) \/ AgentStep(r)
Spec == Init /\ [][Next]_vars /\ \A r \in Requests : WF_vars(MasterStep(r)) /\ WF_vars(AgentStep(r))

Alive == up = {"master", "agent"}
Refuses == \A r \in Requests : result[r] # "" => result[r] = IF bad[r] = {} THEN "served" ELSE "refused"
\* What the master lets through, the agents do, too.
Agree == \A r \in Requests : to[r] = "master" /\ result[r] = "refused" => slices[r] = <<>>
Answered == <>(\A r \in Requests : result[r] # "")
AllParts == {Parts[i] : i \in 1..NumParts}
NoCuts == AllParts \ {"cuts"}
NoLayer == AllParts \ {"layer"}
=============================================================================

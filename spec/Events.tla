------------------------------- MODULE Events -------------------------------
(* Validation of a trace of independent events of the real code: every event   *)
(* is judged by the operator Verdict of the specification that extends this    *)
(* module ("" = the specification allows the event, otherwise the reason why   *)
(* not).  The events are judged in interleaved chunks, one per TLC worker.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANT Verdict(_)

Trace  == ndJsonDeserialize(IOEnv.TRACE)
NTrace == Len(Trace)
Chunks == 16

VARIABLE at   \* index of the next event to judge

Has(e, f) == f \in DOMAIN e

Judge(e) == IF Has(e, "died") THEN "the real code " \o e.died
            ELSE IF Has(e, "harmless") THEN "" ELSE Verdict(e)

EventsInit == at \in 1..Chunks
EventsNext ==
    /\ at <= NTrace
    /\ LET v == Judge(Trace[at])
       IN  IF v = "" THEN TRUE ELSE PrintT("REJECT " \o ToString(at) \o " " \o v)
    /\ at' = at + Chunks

EventsSpec == EventsInit /\ [][EventsNext]_at

\* One distinct state per event, and one beyond the end per chunk.
AllJudged == PrintT("JUDGED " \o ToString(TLCGet("distinct") - Chunks))
=============================================================================

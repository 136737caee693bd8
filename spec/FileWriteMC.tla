---------------------------- MODULE FileWriteMC ----------------------------
(* Design of a write: the file is created, its header and its payload go       *)
(* through buffers of any size to a device that may become full, and the file  *)
(* is closed.  Every step may fail; the outcome must not hide it.              *)
EXTENDS FileWrite
CONSTANTS Size, HeaderSize,
          Unflushed  \* a wrong design: success is reported before the last bytes are stored
VARIABLES cap,       \* bytes the device takes (-1: the file cannot be created)
          made,      \* bytes handed to the writer
          stored,    \* bytes stored
          failed,    \* a step failed
          out        \* "": running, "ok", "error"
vars == <<cap, made, stored, failed, out>>
Init == cap \in -1..Size+1 /\ made = 0 /\ stored = 0 /\ failed = FALSE /\ out = ""
Create == /\ out = "" /\ made = 0 /\ cap = -1 /\ out' = "error" /\ failed' = TRUE /\ UNCHANGED <<cap, made, stored>>
\* Hand over the header, then the payload in any portions.
Produce == /\ out = "" /\ cap >= 0 /\ ~failed
           /\ \E k \in 1..Size-made : (made < HeaderSize => made + k <= HeaderSize) /\ made' = made + k
           /\ UNCHANGED <<cap, stored, failed, out>>
\* Buffered bytes reach the device, or not.
Flush == /\ out = "" /\ stored < made /\ ~failed
         /\ \E k \in 1..made-stored : IF stored + k <= cap THEN stored' = stored + k /\ failed' = FALSE
                                     ELSE stored' = cap /\ failed' = TRUE
         /\ UNCHANGED <<cap, made, out>>
Fail  == out = "" /\ failed /\ out' = "error" /\ UNCHANGED <<cap, made, stored, failed>>
Close == out = "" /\ ~failed /\ cap >= 0 /\ made = Size /\ (stored = made \/ Unflushed) /\ out' = "ok" /\ UNCHANGED <<cap, made, stored, failed>>
Next == Create \/ Produce \/ Flush \/ Fail \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Honest == out # "" => MayReport(stored, Size, out = "ok")
NoSpuriousFailure == out = "error" => cap < Size
Ends == <>(out # "")
=============================================================================

------------------------------ MODULE FileIOMC ------------------------------
(* Design of an operation that reads one file and writes another one.  The     *)
(* bytes arrive and leave in portions of any size; any call may fail.          *)
EXTENDS FileIO
CONSTANTS In, Out,  \* sizes of the files
          Wrong     \* a wrong design: "eof" takes a failing read for the end, "write" goes on after a failing write,
                    \* "close" ignores a failing close, "late" reports success before the last bytes leave; "no": none
VARIABLES ph,       \* "read", "write", "close", "done"
          ins, outs,  \* the calls about the input and the output
          failed,   \* the operation knows of a failure
          stored,   \* bytes that are stored
          out       \* "", "ok", "error"
vars == <<ph, ins, outs, failed, stored, out>>
Call(c, ok, n) == [c |-> c, ok |-> ok, n |-> n]
Got == Moved(ins, "read", Len(ins))
Sent == Moved(outs, "write", Len(outs))
Init == ph = "read" /\ ins = <<>> /\ outs = <<>> /\ failed = FALSE /\ stored = 0 /\ out = ""

Read == /\ ph = "read"
        /\ \/ \E n \in 1..In-Got : ins' = Append(ins, Call("read", TRUE, n)) /\ UNCHANGED <<ph, failed>>
           \/ Got = In /\ ins' = Append(ins, Call("read", TRUE, 0)) /\ ph' = "open" /\ UNCHANGED failed
           \/ /\ ins' = Append(ins, Call("read", FALSE, 0))
              /\ IF Wrong = "eof" THEN ph' = "open" /\ UNCHANGED failed
                 ELSE ph' = "done" /\ failed' = TRUE
        /\ UNCHANGED <<outs, stored, out>>
Open == /\ ph = "open"
        /\ \E ok \in BOOLEAN : /\ outs' = Append(outs, Call("open", ok, 0))
                               /\ failed' = ~ok /\ ph' = IF ok THEN "write" ELSE "done"
        /\ UNCHANGED <<ins, stored, out>>
Write == /\ ph = "write"
         /\ \/ \E n \in 1..Out-Sent : outs' = Append(outs, Call("write", TRUE, n)) /\ stored' = stored + n /\ UNCHANGED <<ph, failed>>
            \/ Sent < Out /\ outs' = Append(outs, Call("write", FALSE, 0)) /\ failed' = (Wrong # "write") /\ ph' = "close" /\ UNCHANGED stored
            \/ (Sent = Out \/ Wrong = "late") /\ ph' \in {"sync", "close"} /\ UNCHANGED <<outs, failed, stored>>
         /\ UNCHANGED <<ins, out>>
Sync == /\ ph = "sync" /\ ph' = "close"
        /\ \E ok \in BOOLEAN : outs' = Append(outs, Call("sync", ok, 0)) /\ failed' = (failed \/ ~ok)
        /\ UNCHANGED <<ins, stored, out>>
\* A failing close may lose what no sync has stored.
Close == /\ ph = "close" /\ ph' = "done"
         /\ \E ok \in BOOLEAN :
              /\ outs' = Append(outs, Call("close", ok, 0))
              /\ failed' = (failed \/ (~ok /\ Wrong # "close"))
              /\ stored' = IF ok \/ \E k \in DOMAIN outs : outs[k].c = "sync" /\ outs[k].ok THEN stored ELSE 0
         /\ UNCHANGED <<ins, out>>
Report == ph = "done" /\ out = "" /\ out' = (IF failed THEN "error" ELSE "ok") /\ UNCHANGED <<ph, ins, outs, failed, stored>>
Next == Read \/ Open \/ Write \/ Sync \/ Close \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* Success means that everything was read and stored; the calls about the files tell whether that is so.
Honest == out = "ok" => Got = In /\ stored = Out
Seen == out = "ok" => MaySucceed(ins, In) /\ MaySucceed(outs, 0)
\* What may be reported as a success is one: nothing is allowed that loses bytes.
Sound == out # "" /\ Got = In /\ Sent = Out /\ MaySucceed(ins, In) /\ MaySucceed(outs, 0) => stored = Out
NoSpuriousFailure == out = "error" => (\E k \in DOMAIN ins : ~ins[k].ok) \/ \E k \in DOMAIN outs : ~outs[k].ok
Ends == <>(out # "")
=============================================================================

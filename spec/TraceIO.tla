------------------------------ MODULE TraceIO -------------------------------
(* Runs of the real readers, writers and tools in which system calls about one *)
(* file were made to fail (C29).                                               *)
EXTENDS FileIO, Events

\* e.clean, e.exit: the exit status without and with the failure; e.calls: the calls about the file, with the failure;
\* e.skips: the tool may do without what could not be read; then the output is e.same: voxcut may skip a cutting model
\* as a whole, svx2stl need not read all of an archive.
Injected(e) == \E k \in DOMAIN e.calls : e.calls[k].inj
VerdictC29(e) ==
    IF e.op = "untraced" THEN ""
    ELSE IF e.clean # 0 THEN "failed without a failing call"
    ELSE IF e.exit = 99 THEN "crashed" ELSE IF e.exit = 98 THEN "hangs"
    ELSE IF ~Injected(e) THEN IF e.exit = 0 THEN "" ELSE "failed, but no call did"
    ELSE IF e.exit # 0 \/ MaySucceed(e.calls, e.total) THEN ""
    ELSE IF e.skips THEN IF e.same THEN "" ELSE "a read failed, but no error, and another output"
    ELSE IF e.input THEN "a read failed, but no error" ELSE "the output may be lost, but no error"
=============================================================================

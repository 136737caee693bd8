---------------------------- MODULE TraceRemote ----------------------------
(* Runs of the real processes of the SVX service (C28).                        *)
EXTENDS TraceRequest

ClientWhy(e, g) ==
    LET fate == IF ~e.loads \/ ~e.reach THEN "refuse" ELSE Fate(e, g)
        shape == IF e.imgs = <<>> THEN "no images" ELSE ImagesWhy(e, g)
    IN IF e.exit = 99 THEN "the client crashed"
       ELSE IF e.killed THEN ""
       ELSE IF e.exit = 98 THEN "the client does not end"
       ELSE IF e.exit = 0 THEN
            IF fate = "refuse" THEN "success for an unsound request"
            ELSE IF ~e.fits THEN "success although the file cannot be stored"
            ELSE IF ~e.new THEN "success without a new file"
            ELSE IF ~e.whole THEN "a file that is no archive"
            ELSE shape
       ELSE IF e.new /\ e.fits THEN "a file in spite of an error"
       ELSE IF fate = "serve" /\ e.fits /\ e.lived THEN "failed" ELSE ""
VerdictC28(e) ==
    CASE e.op = "client" -> IF \E g \in GridsOf(e) : ClientWhy(e, g) = "" THEN "" ELSE ClientWhy(e, [i \in 1..3 |-> Ceil(e.len[i])])
      [] e.op = "server" -> IF e.exit = 0 THEN "a server that cannot work ends without an error"
                            ELSE IF e.exit = 99 THEN "a server crashed" ELSE IF e.exit = 98 THEN "a server that cannot work does not end" ELSE ""
      [] e.op = "end" -> IF ~e.master THEN "the master has ended" ELSE IF e.up < e.started THEN "an agent has ended" ELSE ""
=============================================================================

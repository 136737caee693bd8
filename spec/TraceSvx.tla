------------------------------ MODULE TraceSvx -----------------------------
(* Behaviours of the real master, as seen by its clients and agents, judged    *)
(* against Svx in two ways: every log as a whole (C18, C19, C20, with a reason  *)
(* that tells what is wrong), and whether the log is a behaviour of Svx when   *)
(* the steps inside of the master, which nobody sees, are added (TraceSvxB).   *)
EXTENDS Events

Idx(e) == DOMAIN e.log
Job(l, j) == l[CHOOSE i \in DOMAIN l : l[i].ev = "job" /\ l[i].j = j]
Ends(l) == {i \in DOMAIN l : l[i].ev = "end"}
\* The answers that the job got, and may not have got as its agent died after it had answered.
Dies(l, a, i) == \E k \in DOMAIN l : k > i /\ l[k].ev = "die" /\ l[k].a = a
Errs(l, j) == {i \in DOMAIN l : l[i].ev = "reply" /\ l[i].j = j /\ l[i].st = "err"}
Cancelled(l, j) == \E i \in DOMAIN l : l[i].ev = "cancel" /\ l[i].j = j
CallOf(l, id) == l[CHOOSE i \in DOMAIN l : l[i].ev = "call" /\ l[i].id = id]
Answered(l, n, id) == \E i \in 1..n : l[i].ev = "reply" /\ l[i].id = id /\ l[i].st = "ok"

\* An archive that the master returned at position n of the log.
ArchiveWhy(l, n) ==
    LET e == l[n] job == Job(l, e.j) im == e.images IN
    IF ~e.good \/ e.manifests # 1 THEN "a damaged archive"
    ELSE IF \E i \in DOMAIN im : im[i].layer < 0 \/ im[i].layer > job.layers + 1 THEN "an image that is not part of the job"
    ELSE IF \E z \in 0..job.layers+1 : Cardinality({i \in DOMAIN im : im[i].layer = z}) # 1 THEN "not every image exactly once"
    ELSE IF \E i \in DOMAIN im : im[i].layer \in {0, job.layers + 1} /\ (im[i].id # 0 \/ im[i].w # job.w \/ im[i].h # job.h) THEN "the image below or above is not blank"
    ELSE IF \E i \in DOMAIN im : im[i].layer \in 1..job.layers /\ (im[i].id < 1 \/ ~Answered(l, n, im[i].id)) THEN "not an image that an agent made"
    ELSE ""
\* Images of other jobs or layers.
MixWhy(l, n) ==
    LET e == l[n] job == Job(l, e.j) im == e.images
        real == {i \in DOMAIN im : im[i].id >= 1 /\ Answered(l, n, im[i].id)}
    IN IF \E i \in real : CallOf(l, im[i].id).j # e.j THEN "job"
       ELSE IF \E i \in real : CallOf(l, im[i].id).z # im[i].layer THEN "layer" ELSE ""
First(S, F(_)) == LET b == {x \in S : F(x) # ""} IN IF b = {} THEN "" ELSE F(CHOOSE x \in b : TRUE)

-----------------------------------------------------------------------------
EndC18(l, n) ==
    LET e == l[n] why == ArchiveWhy(l, n) IN
    IF e.ok THEN IF {i \in Errs(l, e.j) : i < n /\ ~Dies(l, l[i].a, i)} # {} THEN "an agent reported an error, but the job succeeded"
                 ELSE IF why # "" THEN why
                 ELSE IF MixWhy(l, n) = "layer" THEN "the image of another layer" ELSE ""
    ELSE IF {i \in Errs(l, e.j) : i < n} = {} /\ ~Cancelled(l, e.j) THEN "the job failed though no agent reported an error" ELSE ""
VerdictC18(e) == IF e.op = "race" THEN "" ELSE First(Ends(e.log), LAMBDA n : EndC18(e.log, n))

EndC19(l, n) ==
    LET e == l[n] job == Job(l, e.j) IN
    IF e.ok THEN IF MixWhy(l, n) = "job" THEN "the image of another job"
                 ELSE IF ~e.good \/ e.manifests # 1 THEN "not exactly one manifest"
                 ELSE IF e.grid # <<job.w, job.layers + 2, job.h>> \/ e.voxel # job.unit THEN "the manifest of another job"
                 ELSE IF \E i \in DOMAIN e.images : e.images[i].layer < 0 THEN "an image with the name of another job" ELSE ""
    ELSE IF {i \in Errs(l, e.j) : i < n} = {} /\ ~Cancelled(l, e.j) THEN "the job failed though nothing of its own did" ELSE ""
VerdictC19(e) ==
    IF e.op = "race" THEN "data race"
    ELSE IF \E i \in Idx(e) : e.log[i].ev = "call" /\ ~e.log[i].same THEN "an agent got another request than that of the client"
    ELSE First(Ends(e.log), LAMBDA n : EndC19(e.log, n))

\* The calls that agent a works on after the first n entries.
Working(l, n, a) == {i \in 1..n : l[i].ev = "call" /\ l[i].a = a
                                  /\ (\A m \in i..n : ~(l[m].ev = "reply" /\ l[m].id = l[i].id) /\ ~(l[m].ev = "die" /\ l[m].a = a))}
Live(l, n) == {a \in {l[i].a : i \in {i \in 1..n : l[i].ev = "register"}} :
                 LET last == CHOOSE i \in 1..n : l[i].ev \in {"register", "die"} /\ l[i].a = a /\ ~\E k \in i+1..n : l[k].ev \in {"register", "die"} /\ l[k].a = a
                 IN l[last].ev = "register"}
Running(l, n) == {l[i].j : i \in {i \in 1..n : l[i].ev = "job"}} \ {l[i].j : i \in {i \in 1..n : l[i].ev = "end"}}
\* The layers of job j that nobody works on or has finished.
Open(l, n, j) == 1..Job(l, j).layers \ ({l[i].z : i \in {i \in 1..n : l[i].ev = "reply" /\ l[i].j = j}}
                 \cup UNION {{l[i].z : i \in {i \in Working(l, n, a) : l[i].j = j}} : a \in Live(l, n)})
QuietWhy(l, n) ==
    LET over == {j \in Running(l, n) : {i \in Errs(l, j) : i < n /\ ~Dies(l, l[i].a, i)} # {} \/ \E i \in 1..n : l[i].ev = "cancel" /\ l[i].j = j}
        free == {a \in Live(l, n) : Working(l, n, a) = {}}
    IN IF over # {} THEN "a job that is cancelled or has failed does not end"
       ELSE IF \E j \in Running(l, n) : Open(l, n, j) # {} /\ free # {} THEN "layers wait though an agent is idle"
       ELSE IF \E j \in Running(l, n) : Cardinality({l[i].z : i \in {i \in 1..n : l[i].ev = "reply" /\ l[i].j = j /\ l[i].st = "ok" /\ ~Dies(l, l[i].a, i)}}) = Job(l, j).layers
            THEN "a job does not end" ELSE ""
StepC20(l, n) ==
    CASE l[n].ev = "call" -> IF Cardinality(Working(l, n, l[n].a)) > 1 THEN "an agent gets a layer while it works on another" ELSE ""
      [] l[n].ev = "quiet" -> QuietWhy(l, n)
      [] OTHER -> ""
VerdictC20(e) == IF e.op = "race" THEN ""
                 ELSE LET why == First(Idx(e), LAMBDA n : StepC20(e.log, n)) IN
                      IF why # "" THEN why ELSE IF Running(e.log, Len(e.log)) # {} THEN "a job does not end" ELSE ""
=============================================================================

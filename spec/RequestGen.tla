---------------------------- MODULE RequestGen -----------------------------
(* Requests with at most MaxOdd unusual parts.                                 *)
EXTENDS Request, TLC, Json, Sequences, FiniteSets
CONSTANT MaxOdd
VARIABLE r
Fields == [to   |-> {"master", "agent"},
           base |-> {"ok"} \cup BadBase \cup UpToIt,
           cut  |-> {"no", "ok"} \cup Broken \cup Optional,
           dim  |-> {"ok", "zero", "neg", "min", "far", "max"},
           dx |-> {"one", "some", "all", "over", "zero", "neg", "min", "max"}, dy |-> {"one", "some", "all", "over", "zero", "neg", "min", "max"},
           dz |-> {"one", "some", "all", "over", "zero", "neg", "min", "max"},
           z |-> {"some", "first", "last", "end", "neg", "min", "max"}]
Usual == [to |-> {"master", "agent"}, base |-> {"ok"}, cut |-> {"no", "ok"}, dim |-> {"ok"}, dx |-> {"one", "some"}, dy |-> {"one", "some"}, dz |-> {"one", "some"}, z |-> {"some"}]
Odd(q) == {f \in DOMAIN Fields : q[f] \notin Usual[f]}
\* Each step makes a part unusual, in the order of the parts.
Order == <<"base", "cut", "dim", "dx", "dy", "dz", "z">>
Rank(f) == CHOOSE i \in 1..7 : Order[i] = f
Init == \E to \in Usual.to : r = [to |-> to, base |-> "ok", cut |-> "no", dim |-> "ok", dx |-> "one", dy |-> "one", dz |-> "one", z |-> "some"]
Next == /\ Cardinality(Odd(r)) < MaxOdd
        /\ \E f \in {Order[i] : i \in 1..7} : /\ \A o \in Odd(r) : Rank(o) < Rank(f)
                               /\ (f = "z" => r.to = "agent")
                               /\ \E v \in Fields[f] \ Usual[f] : r' = [r EXCEPT ![f] = v]
Number(d) == CASE d \in {"zero", "neg", "min"} -> 0 [] d \in {"far", "max"} -> Far [] OTHER -> 1
Sent == [base |-> r.base, cuts |-> <<r.cut>>, dim |-> Number(r.dim), div |-> [i \in 1..3 |-> Number(<<r.dx, r.dy, r.dz>>[i])]]
Out == PrintT("CASE " \o ToJson(r @@ [hopeless |-> Hopeless(Sent)]))
=============================================================================

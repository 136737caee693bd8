--------------------------- MODULE ShellMergeMC ----------------------------
(* Design of the merge: all ways to distribute the columns of a small world    *)
(* over models and to merge the models in any order.  After every step the     *)
(* shell must be the shell of everything merged so far, at its place.          *)
EXTENDS ShellMerge, TLC, Json

CONSTANTS Models,   \* 1..number of models
          Cols,     \* columns <<y, z>> of the world that can be filled
          Height,   \* length of the columns along x
          Must,     \* columns that are filled in any case
          Slacks,   \* how far the grids may begin before their voxels
          Agains,   \* whether models hold voxels that the shell lists already, too (subset of BOOLEAN)
          Wrong     \* a wrong design: "still" (the origin does not move), "stale" (earlier voxels keep their neighbors),
                    \* "anew" (voxels that the shell lists already count as new ones), or "no"

VARIABLES owner,    \* owner[c]: the model of column c (0: empty)
          slack,    \* how far the grids of the models begin before their voxels
          again,    \* whether the models hold some of the voxels of the shell, too
          order,    \* models merged so far
          shell
vars == <<owner, slack, again, order, shell>>

Col(c) == {<<x, c[1], c[2]>> : x \in 0..Height-1}
Part(m) == UNION {Col(c) : c \in {d \in Cols : owner[d] = m}}
Low(V, i) == Min({v[i] : v \in V})
High(V, i) == Max({v[i] : v \in V})
World == {Plus(v, shell.t) : v \in DOMAIN shell.vox}
Vox(m) == Part(m) \cup IF again THEN {v \in World : v[1] < Height - 1} ELSE {}
Model(m) == LET V == Vox(m)
                t == IF V = {} THEN <<0, 0, 0>> ELSE <<Low(V, 1) - slack, Low(V, 2) - slack, Low(V, 3)>>
            IN [t |-> t, vox |-> {Plus(v, Neg(t)) : v \in V},
                n |-> IF V = {} THEN <<1, 1, 1>> ELSE <<High(V, 1) - t[1] + 1, High(V, 2) - t[2] + 1, High(V, 3) - t[3] + 1>>]

Init == /\ owner \in {f \in [Cols -> {0} \cup Models] : \A c \in Must : f[c] # 0}
        /\ slack \in Slacks /\ again \in Agains
        /\ order = <<>> /\ shell = NoShell
Merge == \E m \in Models \ {order[i] : i \in DOMAIN order} :
            /\ order' = Append(order, m)
            /\ LET new == AddModel(shell, Model(m))
               IN shell' = IF order = <<>> \/ Wrong = "no" THEN new
                           ELSE IF Wrong = "still" THEN [new EXCEPT !.t = shell.t]
                           ELSE IF Wrong = "anew" THEN \* the last to be listed counts
                                LET o == new.t IN [new EXCEPT !.vox = [v \in DOMAIN new.vox |->
                                    IF Plus(v, o) \in Vox(m) THEN {d \in Offsets : Plus(Plus(v, o), d) \in Vox(m)} ELSE new.vox[v]]]
                           ELSE [new EXCEPT !.vox = [v \in DOMAIN new.vox |->
                                    LET o == Plus(v, Plus(new.t, Neg(shell.t))) IN IF o \in DOMAIN shell.vox THEN shell.vox[o] ELSE new.vox[v]]]
            /\ UNCHANGED <<owner, slack, again>>
Spec == Init /\ [][Merge]_vars

Merged == UNION {Part(order[i]) : i \in DOMAIN order}

\* The shell lists exactly the voxels that are not enclosed, with exactly their
\* neighbors, at their place; its grid covers them.
ShellExact == {Plus(v, shell.t) \o <<NeighborBits(shell.vox[v])>> : v \in DOMAIN shell.vox} = ShellOf(Merged)
Covered == \A v \in DOMAIN shell.vox : \A i \in 1..3 : 0 <= v[i] /\ v[i] < shell.n[i]

\* Cases for the real code: the models in the order in which they were merged.
Emit == IF Len(order) < Cardinality(Models) THEN TRUE
        ELSE PrintT("CASE " \o ToJson([slack |-> slack, parts |-> [i \in DOMAIN order |-> Part(order[i])]])) /\ FALSE

\* Constants of the configurations.
AllCols == {<<y, z>> : y \in 0..2, z \in 0..2}
Corners == {<<0, 0>>, <<0, 2>>, <<2, 0>>, <<2, 2>>}
=============================================================================

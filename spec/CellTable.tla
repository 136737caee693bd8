----------------------------- MODULE CellTable -----------------------------
(* The surfaces of all configurations, recorded from the real code in the file *)
(* TABLE, and the boundaries that they leave on the faces of the cells.        *)
EXTENDS MeshCells, Json, IOUtils

Table == ndJsonDeserialize(IOEnv.TABLE)
Tab == TLCEval([c \in 0..255 |-> Table[c + 1]])
Sides == (0..255) \X {1, 2, 3} \X {-2, 2}
Hole(c) == c \notin {0, 255} /\ Tab[c].tris = <<>>
Bound == TLCEval([f \in Sides |-> TLCEval(Side(Residue(SegsOf(Tab[f[1]].segs)), f[2], f[3]))])
\* The boundary that most cells leave on a face with the same corners.
Patterns == {<<a, Pattern(c, a, -2)>> : a \in 1..3, c \in 0..255}
Most == TLCEval([p \in Patterns |->
          LET all == {f \in Sides : f[2] = p[1] /\ ~Hole(f[1]) /\ Pattern(f[1], f[2], f[3]) = p[2]}
              num(b) == Cardinality({f \in all : Bound[f] = b})
              B == {Bound[f] : f \in all}
          IN IF B = {} THEN {} ELSE CHOOSE b \in B : \A d \in B : num(b) >= num(d)])
Odd(f) == ~Hole(f[1]) /\ Bound[f] # Most[<<f[2], Pattern(f[1], f[2], f[3])>>]
\* Where the boundary starts and ends on the edges of the face: the same for both ways of dealing with two opposite
\* filled corners.
Ends(B) == {<<s[1], 1>> : s \in {t \in B : ~\E u \in B : u[2] = t[1]}} \cup {<<s[2], -1>> : s \in {t \in B : ~\E u \in B : u[1] = t[2]}}
Faulty == TLCEval({c \in 0..255 : Hole(c) \/ \E a \in 1..3, x \in {-2, 2} : Odd(<<c, a, x>>)})

-----------------------------------------------------------------------------
\* The cell at v has its lowest corner in the middle of voxel v.
CellAt(V, v) == LET bit(i) == IF <<v[1] + (Corner[i][1] + 2) \div 4, v[2] + (Corner[i][2] + 2) \div 4, v[3] + (Corner[i][3] + 2) \div 4>> \in V THEN Weight[i] ELSE 0
                IN bit(1) + bit(2) + bit(3) + bit(4) + bit(5) + bit(6) + bit(7) + bit(8)
=============================================================================

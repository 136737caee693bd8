------------------------------- MODULE SvxSym ------------------------------
(* Svx with interchangeable agents.                                            *)
EXTENDS Svx, TLC
Sym == Permutations(Agents)
=============================================================================

------------------------------ MODULE Archive ------------------------------
(* SVX archives: a manifest, which gives the size of the grid and the pattern  *)
(* of the names of the images, and the images. Texts are sequences of bytes.   *)
EXTENDS Integers, Sequences, FiniteSets

Percent == 37   Zero == 48   D == 100
IsDigit(c) == 48 <= c /\ c <= 57
RECURSIVE Digits(_)
Digits(z) == IF z < 10 THEN <<48 + z>> ELSE Append(Digits(z \div 10), 48 + (z % 10))
Padded(s, width, c) == [i \in 1..(IF Len(s) < width THEN width - Len(s) ELSE 0) |-> c] \o s

RECURSIVE NumberOf(_, _)
NumberOf(s, n) == IF s = <<>> THEN n ELSE NumberOf(Tail(s), 10 * n + s[1] - 48)
\* The end of the digits of p from position k on.
RECURSIVE DigitsEnd(_, _)
DigitsEnd(p, k) == IF k <= Len(p) /\ IsDigit(p[k]) THEN DigitsEnd(p, k + 1) ELSE k
From(p, k) == SubSeq(p, k, Len(p))
\* The name of image z by a pattern, as of printf; <<>> if this is not a pattern.
RECURSIVE Fmt(_, _)
Fmt(p, z) ==
    IF p = <<>> THEN <<>>
    ELSE IF p[1] # Percent THEN <<p[1]>> \o Fmt(Tail(p), z)
    ELSE IF Len(p) >= 2 /\ p[2] = Percent THEN <<Percent>> \o Fmt(From(p, 3), z)
    ELSE LET end == DigitsEnd(p, 2)
             width == NumberOf(SubSeq(p, 2, end - 1), 0)
         IN IF end > Len(p) \/ p[end] # D THEN <<>>
            ELSE Padded(Digits(z), width, IF p[2] = Zero THEN Zero ELSE 32) \o Fmt(From(p, end + 1), z)
\* Whether a pattern has exactly one number.
RECURSIVE Verbs(_)
Verbs(p) == IF p = <<>> THEN 0 ELSE IF p[1] # Percent THEN Verbs(Tail(p))
            ELSE IF Len(p) >= 2 /\ p[2] = Percent THEN Verbs(From(p, 3))
            ELSE LET end == DigitsEnd(p, 2) IN IF end > Len(p) \/ p[end] # D THEN 100 ELSE 1 + Verbs(From(p, end + 1))
=============================================================================

----------------------------- MODULE ArchiveMC -----------------------------
(* The way of the name of an image: the master writes a pattern made of the    *)
(* prefix into the XML of the manifest; a reader decodes it, and finds the     *)
(* number of an image by its name. TLC checks for all prefixes over an         *)
(* alphabet of the critical characters that the names which the manifest       *)
(* stands for are those of the images, and that the numbers are found.         *)
EXTENDS Archive, TLC
CONSTANTS Alphabet, MaxLen, Numbers,
          NoPercents, NoXML, FourDigits    \* wrong designs: no escaping for printf or XML; readers that scan four digits at most
VARIABLES prefix, z
\* & < > "
Entity == [c \in {38, 60, 62, 34} |-> CASE c = 38 -> <<38, 97, 109, 112, 59>> [] c = 60 -> <<38, 108, 116, 59>>
                                       [] c = 62 -> <<38, 103, 116, 59>> [] c = 34 -> <<38, 113, 117, 111, 116, 59>>]
RECURSIVE Encode(_)
Encode(s) == IF s = <<>> THEN <<>> ELSE (IF ~NoXML /\ s[1] \in DOMAIN Entity THEN Entity[s[1]] ELSE <<s[1]>>) \o Encode(Tail(s))
\* The value of an attribute; <<0>> if it is not valid.
RECURSIVE Decode(_)
Decode(s) == IF s = <<>> THEN <<>>
             ELSE IF s[1] \in {60, 62, 34} THEN <<0>>     \* (the attribute ends)
             ELSE IF s[1] # 38 THEN <<s[1]>> \o Decode(Tail(s))
             ELSE LET hit == {c \in DOMAIN Entity : Len(Entity[c]) <= Len(s) /\ SubSeq(s, 1, Len(Entity[c])) = Entity[c]}
                  IN IF hit = {} THEN <<0>> ELSE LET c == CHOOSE c \in hit : TRUE IN <<c>> \o Decode(From(s, Len(Entity[c]) + 1))
RECURSIVE Double(_)
Double(s) == IF s = <<>> THEN <<>> ELSE (IF ~NoPercents /\ s[1] = Percent THEN <<Percent, Percent>> ELSE <<s[1]>>) \o Double(Tail(s))
Ending == <<46, 112>>                                    \* .p
PatternOf(p) == Double(p) \o <<45, Percent, 48, 52, D>> \o Ending
NameOf(p, n) == p \o <<45>> \o Padded(Digits(n), 4, Zero) \o Ending
Manifest(p) == Encode(PatternOf(p))
\* The reader's way to the number: along the pattern and the name; -1 if they do not match.
RECURSIVE Scan(_, _)
Scan(p, n) ==
    IF p = <<>> THEN -1
    ELSE IF p[1] # Percent THEN IF n # <<>> /\ n[1] = p[1] THEN Scan(Tail(p), Tail(n)) ELSE -1
    ELSE IF Len(p) >= 2 /\ p[2] = Percent THEN IF n # <<>> /\ n[1] = Percent THEN Scan(From(p, 3), Tail(n)) ELSE -1
    ELSE LET v == DigitsEnd(p, 2)
             end == DigitsEnd(n, 1)
             last == IF FourDigits /\ end > 5 THEN 5 ELSE end
         IN IF v > Len(p) \/ p[v] # D \/ end = 1 THEN -1
            ELSE IF From(n, last) # From(p, v + 1) THEN -1 ELSE NumberOf(SubSeq(n, 1, last - 1), 0)
Init == /\ prefix \in UNION {[1..k -> Alphabet] : k \in 0..MaxLen} /\ z \in Numbers
Next == UNCHANGED <<prefix, z>>
Named == Fmt(Decode(Manifest(prefix)), z) = NameOf(prefix, z)
Found == Scan(Decode(Manifest(prefix)), NameOf(prefix, z)) = z
OneVerb == Verbs(Decode(Manifest(prefix))) = 1
=============================================================================

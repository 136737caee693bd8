INIT Init
NEXT Next
CONSTANTS
 Alphabet = {37, 38, 34, 60, 48, 100, 45, 97}
 MaxLen = 3
 Numbers = {0, 9, 10, 9999, 10000, 123456}
 NoPercents = FALSE
 NoXML = FALSE
 FourDigits = FALSE
INVARIANTS Named Found OneVerb
CHECK_DEADLOCK FALSE

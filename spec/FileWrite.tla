----------------------------- MODULE FileWrite -----------------------------
(* When a write may report success: the file was created and all of its bytes  *)
(* are stored.  `cap' is how many bytes the device takes, `size' the size of   *)
(* the complete file.                                                          *)
EXTENDS Integers
MayReport(stored, size, ok) == ok => stored = size
=============================================================================

-------------------------------- MODULE Dump --------------------------------
(* Debugging aid: prints the marks the machine expects next to the observed ones. *)
EXTENDS Trace
DumpAll == Done => PrintT(ToJson([id |-> Doc.id, T |-> ET({"B", "H", "F"}), R |-> m.R, L |-> m.L, I |-> m.I, pages |-> m.E.pg, diff |-> Diff]))
=============================================================================

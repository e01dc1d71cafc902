---------------------------- MODULE FaultsTrace ----------------------------
(* Runs of the library with one injected fault, judged by the machine.       *)
(*  run:    n engine calls and size bytes without the fault;                 *)
(*          flt: none, engine (from call number at on), pdf (the engine      *)
(*          fails to write), writer (fails once at bytes are exceeded)       *)
(*  loader: what is loaded (doc, def, hyph) and how that fails               *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.DOCS)
VARIABLES c, m
vars == <<c, m>>
\* ph: laying out, checking the engine, writing, ended
M0 == [ph |-> "lay", err |-> "", bytes |-> 0]
Init == LET ds == Cases IN \E k \in 1..Len(ds) : c = ds[k] /\ m = M0
End(e, b) == m' = [ph |-> "end", err |-> e, bytes |-> b]
Load == /\ m.ph = "lay" /\ c.kind = "loader" /\ End(IF c.flt = "none" THEN "" ELSE "any", 0)
Lay == /\ m.ph = "lay" /\ c.kind = "run" /\ m' = [m EXCEPT !.ph = "check"]
Check == /\ m.ph = "check"
         /\ IF c.flt = "engine" /\ c.at <= c.n THEN End("injected engine error", 0) ELSE m' = [m EXCEPT !.ph = "write"]
Write == /\ m.ph = "write"
         /\ CASE c.flt = "pdf" -> End("injected pdf error", 0)
              [] c.flt = "writer" /\ c.at <= c.size -> End("injected write error", c.at)
              [] OTHER -> End("", c.size)
Next == (Load \/ Lay \/ Check \/ Write) /\ UNCHANGED c
Bad == IF c.obs.fault # "" THEN {"fault"}
       ELSE (IF (m.err = "") # (c.obs.err = "") THEN {"verdict"} ELSE {})
            \cup (IF m.err \notin {"", "any", c.obs.is} THEN {"error"} ELSE {})
            \cup (IF c.kind = "run" /\ m.bytes # c.obs.bytes THEN {"bytes"} ELSE {})
            \cup (IF c.kind = "loader" /\ c.obs.err # "" /\ c.obs.partial THEN {"partial"} ELSE {})
Report == m.ph = "end" => PrintT("VERDICT " \o ToJson([id |-> c.id, amb |-> FALSE, steps |-> 1, bad |-> Bad]))
\* no error, no loss: an ended run without error has written everything
Complete == (m.ph = "end" /\ c.kind = "run" /\ m.err = "") => m.bytes = c.size
=============================================================================

----------------------------- MODULE BoundTrace -----------------------------
(* Degenerate documents: processing has ended, without a fault, within the   *)
(* budget of pages. An error is an end, too; documents that do not load are  *)
(* none of this property's.                                                  *)
EXTENDS Bound, Json, IOUtils, TLC
FileDocs == ndJsonDeserialize(IOEnv.DOCS)
VARIABLES d, doc, i, b
vars == <<d, doc, i, b>>
Init == LET ds == FileDocs IN \E k \in 1..Len(ds) : d = k /\ doc = ds[k] /\ i = 1 /\ b = 1
Next == /\ i <= Len(doc.body)
        /\ b' = b + Cost(doc.body[i])
        /\ i' = i + 1
        /\ UNCHANGED <<d, doc>>
Spec == Init /\ [][Next]_vars
Done == i > Len(doc.body)
O == doc.obs
If(c, a) == IF c THEN {a} ELSE {}
\* the driver stops after 3000 pages: too early for documents that may take more
TooSmall == O.fault = "runaway: pages" /\ b > 3000
Bad == If(O.fault # "" /\ ~TooSmall, "fault") \cup If(O.fault = "" /\ O.pages > b, "pages")
Report == Done => PrintT("VERDICT " \o ToJson([id |-> doc.id, amb |-> TooSmall \/ (O.fault = "" /\ O.load # ""), steps |-> i, bad |-> Bad, bound |-> b]))
=============================================================================

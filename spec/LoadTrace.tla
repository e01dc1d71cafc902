----------------------------- MODULE LoadTrace -----------------------------
(* The loader reads the tokens of each document; what it has loaded in the   *)
(* end is compared with what the code loaded.                               *)
EXTENDS Load, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.DOCS)
VARIABLES c, i, a
vars == <<c, i, a>>
Init == LET ds == Cases IN \E k \in 1..Len(ds) : c = ds[k] /\ i = 0 /\ a = L0
Token == /\ a.st = "read" /\ i < Len(c.tk) /\ i' = i + 1 /\ a' = Feed(a, c.tk[i + 1]) /\ UNCHANGED c
Ended == /\ a.st = "read" /\ i = Len(c.tk) /\ i' = i /\ a' = Eof(a) /\ UNCHANGED c
Next == Token \/ Ended
View == <<c.id, i, a.st>>
F == Final(a)
Bad == IF c.obs.fault # "" THEN {"fault"}
       ELSE IF (F.st = "err") # (c.obs.err # "") THEN {"verdict"}
       ELSE IF F.st = "err" THEN {}
       ELSE IF c.obs.doc = <<F.doc>> THEN {} ELSE {x \in DOMAIN F.doc : F.doc[x] # c.obs.doc[1][x]}
Report == a.st # "read" => PrintT("VERDICT " \o ToJson([id |-> c.id, amb |-> F.odd, steps |-> i, bad |-> Bad, st |-> F.st, want |-> IF Bad = {} THEN EmptyDoc ELSE F.doc]))
\* the innermost open element is always one whose content is understood
Stack == a.st = "read" => \A k \in 1..Len(a.stk) : a.stk[k].k \in {"doc", "meta", "page", "margins", "val", "iss", "void", "cdata", "table", "tr", "td", "grid", "gr", "part", "thru", "skip"}
=============================================================================

----------------------------- MODULE HistTrace -----------------------------
(* The observations of a history: a register per document and kind of result *)
(* (marks with an engine, description, content), written by an observation   *)
(* of the document alone in a process of its own, and read by all others.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.DOCS)
VARIABLES c, i, reg, bad
vars == <<c, i, reg, bad>>
\* ref: <<slot, kind, value>>
Regs(ref) == [x \in {<<ref[k][1], ref[k][2]>> : k \in 1..Len(ref)} |->
                (CHOOSE k \in 1..Len(ref) : <<ref[k][1], ref[k][2]>> = x)]
Init == LET ds == Cases IN \E k \in 1..Len(ds) : c = ds[k] /\ i = 0 /\ reg = Regs(ds[k].ref) /\ bad = {}
Val(e) == IF <<e.s, e.k>> \in DOMAIN reg THEN c.ref[reg[<<e.s, e.k>>]][3] ELSE "?"
\* a process that died has observed nothing
Ev == IF "ev" \in DOMAIN c.obs THEN c.obs.ev ELSE <<>>
Next == /\ i < Len(Ev) /\ i' = i + 1
        /\ LET e == Ev[i + 1] IN bad' = bad \cup (IF e.v = Val(e) THEN {} ELSE {e.k})
        /\ UNCHANGED <<c, reg>>
Spec == Init /\ [][Next]_vars
\* every operation that yields something has been observed
Results == Len(SelectSeq(Ev, LAMBDA e : e.k # "dump"))
Due == c.due
Report == i = Len(Ev) =>
  PrintT("VERDICT " \o ToJson([id |-> c.id, amb |-> FALSE, steps |-> i,
     bad |-> IF c.obs.fault # "" THEN {"fault"} ELSE bad \cup (IF Results # Due THEN {"missing"} ELSE {})]))
=============================================================================

----------------------------- MODULE TextTrace -----------------------------
(* Longer texts: the scanner runs over the text of each recorded call and    *)
(* has to end with what the code returned.                                  *)
EXTENDS Text, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.DOCS)
VARIABLES c, i, s
vars == <<c, i, s>>
Init == LET cs == Cases IN \E k \in 1..Len(cs) : c = cs[k] /\ i = 0 /\ s = Scan0
Read == c.op = "ws" /\ i < Len(c.s) /\ i' = i + 1 /\ s' = ScanStep(s, c.s[i + 1]) /\ UNCHANGED c
\* one pass replaces one occurrence
Pass == /\ c.op = "tw" /\ IF i = 0 THEN i' = 1 /\ s' = [s EXCEPT !.out = c.s]
                          ELSE Occ(s.out, c.t) # {} /\ i' = i + 1
                               /\ s' = [s EXCEPT !.out = LET o == Occ(s.out, c.t) IN UntwinAt(s.out, c.t, CHOOSE j \in o : \A q \in o : j <= q)]
        /\ UNCHANGED c
Next == Read \/ Pass
Done == ~ENABLED Next
Finished == IF c.op = "ws" THEN i = Len(c.s) ELSE i > 0 /\ Occ(s.out, c.t) = {}
ScanLaw == c.op = "ws" => Normal(s.out)
Report == Finished => PrintT("VERDICT " \o ToJson([id |-> c.id, amb |-> FALSE, steps |-> i, bad |->
             IF c.obs.fault # "" THEN {"fault"} ELSE IF c.obs.x # s.out THEN {"text"} ELSE IF c.obs.y # s.out THEN {"twice"} ELSE {}]))
=============================================================================

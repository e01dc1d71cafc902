----------------------------- MODULE FontsTrace -----------------------------
(* The definition is read variant by variant; every one is registered.      *)
EXTENDS Fonts, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.DOCS)
VARIABLES c, f, s, reg
vars == <<c, f, s, reg>>
Init == LET ds == Cases IN \E k \in 1..Len(ds) : c = ds[k] /\ f = 1 /\ s = 1 /\ reg = <<>>
Fonts == c.def.fonts
ReadVariant == /\ f <= Len(Fonts) /\ s <= Len(Fonts[f].st)
               /\ reg' = Append(reg, Entry(c.dir, Fonts[f].n, Fonts[f].st[s])) /\ s' = s + 1 /\ UNCHANGED <<c, f>>
NextFont == /\ f <= Len(Fonts) /\ s > Len(Fonts[f].st) /\ f' = f + 1 /\ s' = 1 /\ UNCHANGED <<c, reg>>
Next == ReadVariant \/ NextFont
View == <<c.id, f, s>>
Done == f > Len(Fonts)
\* a stopped enumeration sees the first ones only
Upto(q, k) == SubSeq(q, 1, IF k < Len(q) THEN k ELSE Len(q))
Bad == IF c.obs.fault # "" \/ c.obs.err # "" THEN {"fault"}
       ELSE (IF c.obs.list # reg THEN {"registry"} ELSE {})
            \cup (IF c.obs.stop # Upto(reg, c.stop) THEN {"enumeration"} ELSE {})
            \cup (IF c.obs.mono # MonoOf(c.def) \/ c.obs.rmono # c.def.mono THEN {"mono"} ELSE {})
Report == Done => PrintT("VERDICT " \o ToJson([id |-> c.id, amb |-> FALSE, steps |-> Len(reg), bad |-> Bad, want |-> reg]))
\* the registry keeps the definition's order and loses nothing
Count == Len(reg) = SumSeq([k \in 1..(f - 1) |-> Len(Fonts[k].st)]) + (s - 1)
=============================================================================

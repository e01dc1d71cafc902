------------------------------ MODULE HistGen ------------------------------
(* All histories of a shape, exported to be replayed against the code.       *)
EXTENDS Hist, Json, IOUtils
Num(s) == CHOOSE k \in 0..9 : ToString(k) = s
EnvSlots == 1..Num(IOEnv.SLOTS)
EnvRuns == 1..Num(IOEnv.RUNS)
EnvSlices == Num(IOEnv.SLICES)
EnvExtras == Num(IOEnv.EXTRAS)
EnvEngines == IF IOEnv.ENGINES = "1" THEN {"fake"} ELSE {"fake", "pdf"}
Export == Over => PrintT("HIST " \o ToJson([k \in 1..Len(h) |-> <<h[k].o, h[k].s, h[k].r, h[k].e>>]))
=============================================================================

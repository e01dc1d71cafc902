----------------------------- MODULE FaultsGen -----------------------------
(* Every run of the commands under every combination of failing steps.      *)
EXTENDS Faults, TLC, Json
VARIABLES cmd, flt, r
vars == <<cmd, flt, r>>
Used(c) == {Steps(c)[k] : k \in 1..Len(Steps(c))}
Init == /\ cmd \in {"xpdf", "describe", "image"}
        /\ flt \in [doc : IF cmd = "image" THEN {"ok"} ELSE Ways.doc, out : IF cmd = "xpdf" THEN Ways.out ELSE {"ok"},
                    def : IF cmd = "xpdf" THEN Ways.def ELSE {"ok"}, font : IF cmd = "xpdf" THEN Ways.font ELSE {"ok"},
                    lay : IF cmd = "xpdf" THEN Ways.lay ELSE {"ok"}, write : {"ok"}, prt : IF cmd = "xpdf" THEN {"ok"} ELSE Ways.prt, img : IF cmd = "image" THEN Ways.img ELSE {"ok"}]
        /\ r = Run0
Next == r.st = "run" /\ r' = RunStep(r, cmd, flt) /\ UNCHANGED <<cmd, flt>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
HonestRun == Honest(r, cmd, flt)
Ends == <>(r.st # "run")
Export == r.st # "run" => PrintT("CASE " \o ToJson([cmd |-> cmd, flt |-> flt, st |-> r.st, at |-> Steps(cmd)[r.pc], file |-> r.file]))
=============================================================================

------------------------------- MODULE Faults -------------------------------
(* The commands as machines of steps, each of which may fail, and what is    *)
(* visible from outside: the exit status, the message, and the output file.  *)
(* The library's processing is the tail of the same machine.                 *)
EXTENDS Naturals, Sequences, FiniteSets

Steps(cmd) == CASE cmd = "xpdf" -> <<"doc", "out", "def", "font", "lay", "write">>
                [] cmd = "describe" -> <<"doc", "prt">>
                [] cmd = "image" -> <<"img", "prt">>

\* the ways a step can fail
Ways == [doc |-> {"ok", "missing", "dir", "empty", "malformed", "unknown", "badstyle", "badclass"},
         out |-> {"ok", "nodir", "isdir", "full"},
         def |-> {"ok", "missing", "malformed", "dir"},
         font |-> {"ok", "missing", "dir", "empty", "garbage", "truncated"},
         lay |-> {"ok", "family", "variant", "image"},
         write |-> {"ok"},
         prt |-> {"ok", "full"},
         img |-> {"ok", "missing", "dir", "empty", "garbage"}]

\* a device that is always full can be opened, but not written
FailsAt(flt, s) == IF s = "out" THEN flt[s] \in {"nodir", "isdir"}
                   ELSE IF s = "write" THEN flt["out"] = "full"
                   ELSE flt[s] # "ok"

\* st: run, fail or done; file: what is in the output file
Run0 == [pc |-> 1, st |-> "run", file |-> "none"]
RunStep(r, cmd, flt) ==
  LET s == Steps(cmd)[r.pc] IN
  IF FailsAt(flt, s) THEN [r EXCEPT !.st = "fail"]
  ELSE LET f == CASE s = "out" -> IF flt["out"] = "full" THEN "none" ELSE "empty"
                  [] s = "write" -> "pdf"
                  [] OTHER -> r.file
       IN IF r.pc = Len(Steps(cmd)) THEN [pc |-> r.pc, st |-> "done", file |-> f] ELSE [pc |-> r.pc + 1, st |-> "run", file |-> f]

\* Failing never passes as success, and nothing is written before everything is known to be right
Honest(r, cmd, flt) == /\ r.st = "done" => \A k \in 1..Len(Steps(cmd)) : ~FailsAt(flt, Steps(cmd)[k])
                       /\ r.st = "fail" => r.file # "pdf"
                       /\ (r.st = "done" /\ cmd = "xpdf") => r.file = "pdf"
=============================================================================

------------------------------ MODULE LoadGen ------------------------------
(* Every document body of up to N nodes over the element names, together     *)
(* with what the loader has to make of it: the environment opens and closes  *)
(* elements next to the automaton.                                          *)
EXTENDS Load, Json, IOUtils
CONSTANTS N, Names
VARIABLES a, tk, left, open
vars == <<a, tk, left, open>>
Prefix == <<[k |-> "s", n |-> "document", a |-> <<>>], [k |-> "s", n |-> "body", a |-> <<>>]>>
Attrs(n) == CASE n = "td" -> <<<<"colspan", "2">>, <<"class", "b a">>>> [] n = "part" -> <<<<"area", "x">>>> [] n = "lf" -> <<<<"lines", "1.5">>>>
              [] n \in {"box", "p", "tr", "image", "text"} -> <<<<"style", "width: 3">>>> [] n = "table" -> <<<<"repeatheader", "2">>>> [] OTHER -> <<>>
Init == a = Feed(Feed(L0, Prefix[1]), Prefix[2]) /\ tk = Prefix /\ left = N /\ open = <<"body", "document">>
Emit(t) == a' = Feed(a, t) /\ tk' = Append(tk, t)
\* elements inside a grid row are no XML the loader is specified for
Open(n) == /\ a.st = "read" /\ left > 0 /\ open # <<>> /\ open[1] # "document" /\ open[1] # "gr"
           /\ Emit([k |-> "s", n |-> n, a |-> Attrs(n)]) /\ left' = left - 1 /\ open' = <<n>> \o open
Text == /\ a.st = "read" /\ left > 0 /\ open[1] # "document" /\ tk[Len(tk)].k # "c"
        /\ Emit([k |-> "c", s |-> "x"]) /\ left' = left - 1 /\ UNCHANGED open
Close == /\ a.st = "read" /\ open # <<>>
         /\ Emit([k |-> "e", n |-> open[1]]) /\ open' = Tail(open) /\ UNCHANGED left
Next == Close \/ Text \/ \E n \in Names : Open(n)
\* a document is reported where it is complete or where it goes wrong (the rest does not matter)
Report == a.st # "read" => PrintT("CASE " \o ToJson([tk |-> tk, open |-> open, st |-> Final(a).st, doc |-> Final(a).doc]))
NoPartial == a.st = "done" => open = <<>> /\ a.stk = <<>>
=============================================================================

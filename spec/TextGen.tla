------------------------------ MODULE TextGen ------------------------------
(* Every text over a small alphabet up to a length, built up character by    *)
(* character next to the scanner; every text up to a length with every twin  *)
(* string, untwinned in every order. Each state is exported as a test.       *)
EXTENDS Text, Json, IOUtils
CONSTANTS N, TN
VARIABLES kind, in, tw, s
vars == <<kind, in, tw, s>>

Alphabet == {32, 9, 10, 13, 92, 97}
Small == {97, 98}
Init == \/ kind = "ws" /\ in = <<>> /\ tw = <<>> /\ s = Scan0
        \/ kind = "build" /\ in = <<>> /\ tw \in {<<>>, <<97>>, <<97, 98>>, <<97, 97>>, <<97, 98, 97>>} /\ s = Scan0
Feed == /\ kind = "ws" /\ Len(in) < N
        /\ \E c \in Alphabet : in' = Append(in, c) /\ s' = ScanStep(s, c)
        /\ UNCHANGED <<kind, tw>>
Build == /\ kind = "build" /\ Len(in) < TN
         /\ \E c \in Small : in' = Append(in, c)
         /\ UNCHANGED <<kind, tw, s>>
\* from a built text: replace any occurrence; s.out is the text so far
Start == kind = "build" /\ kind' = "tw" /\ s' = [s EXCEPT !.out = in] /\ UNCHANGED <<in, tw>>
Replace == /\ kind = "tw" /\ \E i \in Occ(s.out, tw) : s' = [s EXCEPT !.out = UntwinAt(s.out, tw, i)]
           /\ UNCHANGED <<kind, in, tw>>
Next == Feed \/ Build \/ Start \/ Replace

ScanLaw == kind = "ws" => /\ s.out = Normalise(in) /\ Normal(s.out)
                          /\ Solid(s.out) = Solid(in) /\ Normalise(s.out) = s.out
\* all orders of replacing end in the same text
Confluent == (kind = "tw" /\ Occ(s.out, tw) = {}) => s.out = Untwin(in, tw)
Shrinks == [][kind = "tw" /\ kind' = "tw" /\ tw # <<>> => Len(s'.out) < Len(s.out)]_vars
Export == /\ kind = "ws" => PrintT("CASE " \o ToJson([op |-> "ws", s |-> in, t |-> <<>>, x |-> s.out]))
          /\ (kind = "tw" /\ Occ(s.out, tw) = {}) => PrintT("CASE " \o ToJson([op |-> "tw", s |-> in, t |-> tw, x |-> s.out]))
=============================================================================

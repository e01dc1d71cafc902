-------------------------------- MODULE Text --------------------------------
(* Whitespace normalisation as a scanner (C14). A text is a sequence of      *)
(* code points; the scanner reads it one by one.                            *)
EXTENDS Base

Blank == {32, 9, 13, 10}
BSL   == 92

\* scanner: out, and whether blanks have been read since its last character
Scan0 == [out |-> <<>>, pend |-> FALSE]
ScanStep(s, c) ==
  IF c \in Blank THEN [s EXCEPT !.pend = TRUE]
  ELSE LET gap == s.pend /\ s.out # <<>> /\ s.out[Len(s.out)] # BSL /\ c # BSL
       IN [out |-> s.out \o (IF gap THEN <<32>> ELSE <<>>) \o <<c>>, pend |-> FALSE]
Normalise(t) == FoldLeft(ScanStep, Scan0, t).out

\* what the scanner guarantees
Solid(t) == SelectSeq(t, LAMBDA c : c \notin Blank)
Normal(t) ==
  /\ \A i \in 1..Len(t) : t[i] \in Blank =>
       t[i] = 32 /\ i > 1 /\ i < Len(t) /\ t[i - 1] \notin Blank \cup {BSL} /\ t[i + 1] \notin Blank \cup {BSL}

(* Twins: occurrences of tw tw are replaced by tw.                          *)
IsAt(t, p, i) == i + Len(p) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(p) - 1) = p
Occ(t, tw) == IF tw = <<>> THEN {} ELSE {i \in 1..Len(t) : IsAt(t, tw \o tw, i)}
UntwinAt(t, tw, i) == SubSeq(t, 1, i - 1) \o tw \o SubSeq(t, i + 2 * Len(tw), Len(t))
RECURSIVE Untwin(_, _)
Untwin(t, tw) == LET o == Occ(t, tw)
                 IN IF o = {} THEN t ELSE Untwin(UntwinAt(t, tw, CHOOSE i \in o : \A j \in o : i <= j), tw)
=============================================================================

----------------------------- MODULE HyphTrace -----------------------------
(* Hyphenation of words with shipped or loaded patterns (C04). A case is a   *)
(* pattern set and words; each step hyphenates the next word.               *)
EXTENDS Hyphen, Json, IOUtils

Digits == [dg \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
             CHOOSE k \in 0..9 : ToString(k) = dg]
\* a pattern line: a digit before a letter is its weight, a second digit in a row is a letter
ParseStep(a, ch) ==
  IF a.want /\ ch \in DOMAIN Digits THEN [a EXCEPT !.w = Append(@, Digits[ch]), !.want = FALSE]
  ELSE [l |-> a.l \o ch, w |-> IF a.want THEN Append(a.w, 0) ELSE a.w, want |-> TRUE]
ParsePattern(line) ==
  LET a == FoldLeft(ParseStep, [l |-> "", w |-> <<>>, want |-> TRUE], Tup([k \in 1..Len(line) |-> CharAt(line, k)]))
  IN [l |-> a.l, w |-> IF a.want THEN Append(a.w, 0) ELSE a.w]

TrimBlanks(line) ==
  LET ks == {k \in 1..Len(line) : CharAt(line, k) \notin {" ", "\t", "\r"}}
  IN IF ks = {} THEN "" ELSE LET a == CHOOSE k \in ks : \A q \in ks : k <= q
                                 b == CHOOSE k \in ks : \A q \in ks : k >= q
                             IN SubSeq(line, a, b)
Loaded(lines) == PatTable(Tup([k \in 1..Len(lines) |-> ParsePattern(lines[k])]))
NonEmpty(lines) == SelectSeq(Tup([k \in 1..Len(lines) |-> TrimBlanks(lines[k])]), LAMBDA l : l # "")

Cases == ndJsonDeserialize(IOEnv.DOCS)
\* the shipped patterns, as letters -> weights
Shipped == ndJsonDeserialize(IOEnv.SHIPPED)[1]

VARIABLES c, pt, i, bad
vars == <<c, pt, i, bad>>
Init == LET cs == Cases IN \E k \in 1..Len(cs) :
          /\ c = cs[k] /\ i = 0 /\ bad = (IF cs[k].obs.fault # "" THEN {"fault"} ELSE IF cs[k].obs.err # "" THEN {"load"} ELSE {})
          /\ pt = IF cs[k].set = "" THEN Loaded(NonEmpty(cs[k].ls)) ELSE Shipped[cs[k].set]
W == c.wl[i + 1]
Expected(w) == HyphenateL(pt, w.s, w.lo, w.b)
Step == /\ i < Len(c.wl) /\ bad = {}
        /\ i' = i + 1
        /\ bad' = IF Len(c.obs.p) = Len(c.wl) /\ c.obs.p[i + 1] = Expected(W) THEN {} ELSE {"pieces"}
        /\ UNCHANGED <<c, pt>>
View == <<c.id, i, bad>>
\* the pieces rejoin, and only a whole word has a piece of fewer than two letters
PiecesLaw == i > 0 /\ bad = {} => LET w == c.wl[i]  ps == Expected(w)
                       IN ConcatStr(ps) = w.s /\ (Len(ps) > 1 => \A k \in 1..Len(ps) : Len(ps[k]) >= 2)
Report == (i = Len(c.wl) \/ bad # {}) => PrintT("VERDICT " \o ToJson(
            [id |-> c.id, amb |-> FALSE, steps |-> i, bad |-> bad, word |-> IF i > 0 /\ i <= Len(c.wl) THEN c.wl[i].s ELSE "",
             want |-> IF i > 0 /\ bad = {"pieces"} THEN Expected(c.wl[i]) ELSE <<>>]))
=============================================================================

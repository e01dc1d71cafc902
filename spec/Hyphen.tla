------------------------------ MODULE Hyphen ------------------------------
(* Pattern hyphenation (C04). A pattern is [l |-> letters, w |-> weights],  *)
(* Len(w) = Len(l) + 1. Of several patterns with the same letters the last  *)
(* one counts.                                                              *)
EXTENDS Base

Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lower == "abcdefghijklmnopqrstuvwxyz"
LowerCh == [i \in 1..26 |-> <<CharAt(Upper, i), CharAt(Lower, i)>>]
LowerOf(c) == LET k == {i \in 1..26 : LowerCh[i][1] = c} IN IF k = {} THEN c ELSE LowerCh[CHOOSE i \in k : TRUE][2]
ToLower(s) == ConcatStr([i \in 1..Len(s) |-> LowerOf(CharAt(s, i))])

\* a set of patterns as a table: of several patterns with the same letters the last is in force
PatTable(pats) ==
  [f |-> [l \in {pats[i].l : i \in 1..Len(pats)} |->
            pats[CHOOSE i \in 1..Len(pats) : pats[i].l = l /\ \A j \in (i + 1)..Len(pats) : pats[j].l # l].w] @@ <<>>,
   max |-> FoldLeft(LAMBDA acc, p : Max2(acc, Len(p.l)), 0, pats)]

\* weight at each of the Len(s)+3 gaps of "." s "."; gap g lies before its g-th character
Weights(pt, lower) ==
  LET ds == "." \o lower \o "."
      n  == Len(ds)
      hits == {h \in (1..n) \X (1..pt.max) : h[1] + h[2] - 1 <= n /\ SubSeq(ds, h[1], h[1] + h[2] - 1) \in DOMAIN pt.f}
      found == {<<h[1], h[1] + h[2], pt.f[SubSeq(ds, h[1], h[1] + h[2] - 1)]>> : h \in hits}
  IN Tup([g \in 1..(n + 1) |->
        LET ws == {h[3][g - h[1] + 1] : h \in {h \in found : g >= h[1] /\ g <= h[2]}}
        IN IF ws = {} THEN 0 ELSE CHOOSE w \in ws : \A v \in ws : v <= w])

\* positions 1..Len(s)-1 after which s is broken: odd weight, at least two letters on either side
\* where the left side counts from the previous break
Breaks(pt, s, lower) ==
  LET n  == Len(s)
      ws == Weights(pt, lower)
  IN FoldLeft(LAMBDA acc, p :
                 IF ws[p + 2] % 2 = 1 /\ p - (IF acc = <<>> THEN 0 ELSE acc[Len(acc)]) > 1 /\ n - p > 1
                 THEN Append(acc, p) ELSE acc,
              <<>>, [i \in 1..(n - 1) |-> i])

Pieces(s, brks) ==
  LET b == <<0>> \o brks \o <<Len(s)>>
  IN Tup([i \in 1..(Len(b) - 1) |-> SubSeq(s, b[i] + 1, b[i + 1])])

\* bytes: number of UTF-8 bytes of s
HyphenateL(pt, s, lower, bytes) ==
  IF bytes < 3 \/ bytes > 100 \/ FindStr(" ", s, 1) > 0 THEN <<s>>
  ELSE Pieces(s, Breaks(pt, s, lower))

Hyphenate(pt, s) == HyphenateL(pt, s, ToLower(s), Len(s))
=============================================================================

-------------------------------- MODULE Grid --------------------------------
(* Placement of table cells on the grid (C07).                              *)
(* rows: sequence of sequences of [cs, rs] (and more); result: sequence of  *)
(* placements [r, c, i, cs, rs] (1-based row, column and cell index).       *)
EXTENDS Base

Covers(p, r, c) == r >= p.r /\ r < p.r + p.rs /\ c >= p.c /\ c < p.c + p.cs
Free(ps, r, c, cs) == \A k \in c..(c + cs - 1) : \A j \in 1..Len(ps) : ~Covers(ps[j], r, k)
RECURSIVE FirstFree(_, _, _, _)
FirstFree(ps, r, c, cs) == IF Free(ps, r, c, cs) THEN c ELSE FirstFree(ps, r, c + 1, cs)

PlaceRow(ps, r, cells) ==
  FoldLeft(LAMBDA acc, i :
             LET cs == Max2(1, cells[i].cs)
                 rs == Max2(1, cells[i].rs)
                 c  == FirstFree(acc.ps, r, acc.next, cs)
             IN [ps |-> Append(acc.ps, [r |-> r, c |-> c, i |-> i, cs |-> cs, rs |-> rs]), next |-> c + cs],
           [ps |-> ps, next |-> 1], [i \in 1..Len(cells) |-> i]).ps

Place(rows) == FoldLeft(LAMBDA ps, r : PlaceRow(ps, r, rows[r]), <<>>, [r \in 1..Len(rows) |-> r])

ColCount(ps) == MaxSeq([i \in 1..Len(ps) |-> ps[i].c + ps[i].cs - 1], 0)
RowCount(ps, given) == MaxSeq([i \in 1..Len(ps) |-> ps[i].r + ps[i].rs - 1], given)

(* The property itself: no overlap, and row-major left-to-right order.      *)
NoOverlap(ps) == \A a, b \in 1..Len(ps) : a < b =>
    ~ ( /\ ps[a].r < ps[b].r + ps[b].rs /\ ps[b].r < ps[a].r + ps[a].rs
        /\ ps[a].c < ps[b].c + ps[b].cs /\ ps[b].c < ps[a].c + ps[a].cs )
InOrder(ps) == \A a, b \in 1..Len(ps) : a < b => ps[a].r < ps[b].r \/ (ps[a].r = ps[b].r /\ ps[a].c < ps[b].c)
LeftMost(ps) == \A a \in 1..Len(ps) :
    \* every column between the previous cell of the row and this one starts no free run wide enough
    LET prev == {b \in 1..(a - 1) : ps[b].r = ps[a].r}
        from == IF prev = {} THEN 1 ELSE LET m == CHOOSE b \in prev : \A q \in prev : q <= b IN ps[m].c + ps[m].cs
    IN \A c \in from..(ps[a].c - 1) : ~Free(SubSeq(ps, 1, a - 1), ps[a].r, c, ps[a].cs)
=============================================================================

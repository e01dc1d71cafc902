-------------------------------- MODULE Laws --------------------------------
(* What the properties promise, stated over the layout machine itself and   *)
(* evaluated in every state of every behaviour that is explored or          *)
(* validated: the machine the code is compared with has the properties.     *)
EXTENDS Xpdf, Bound

FrameOK == \A i \in 1..Len(m.stk) : m.stk[i].k \in {"pb", "is", "hfe", "fin", "ln", "box", "tab", "row", "cell"}

\* C02: lines are filled greedily
LnFrame == m.stk # <<>> /\ Top.k = "ln" /\ Top.li = 1 /\ Top.wi = 1
WordCost(w) == IF w.hy = "b" THEN w.wd ELSE w.wd + w.cw
LineCost(l) == SumSeq([k \in 1..Len(l.ws) |-> WordCost(l.ws[k])])
GreedyLines == LnFrame =>
  \A i \in 1..Len(Top.ls) :
    LET l == Top.ls[i] IN
    /\ l.w = LineCost(l)
    \* within the width, unless it is one word or remainder, followed by nothing that was still added
    /\ l.w >= Top.W => /\ \/ Len(l.ws) <= 1
                          \/ l.ws[Len(l.ws)].hy = "a" /\ l.w <= Top.W
    \* no empty line but before an explicit break
    /\ l.ws = <<>> => l.par
    \* the next word did not fit (or a prefix of it was put here)
    /\ (i < Len(Top.ls) /\ ~l.par) =>
         Top.ls[i + 1].ws = <<>> \/
         LET nx == Top.ls[i + 1].ws[1] IN
         \/ l.ws[Len(l.ws)].hy = "a" /\ nx.hy = "b"
         \/ l.w + nx.wd + nx.cw >= Top.W
    \* divided words: only at the end of a line, and only in block alignment
    /\ \A k \in 1..Len(l.ws) :
         /\ l.ws[k].hy = "a" => k = Len(l.ws) /\ IsBlock(Top.st) /\ i < Len(Top.ls) /\ Top.ls[i + 1].ws[1].hy = "b"
         /\ l.ws[k].hy = "b" => k = 1 /\ i > 1 /\ Top.ls[i - 1].ws[Len(Top.ls[i - 1].ws)].hy = "a"

\* C03: justified lines end 0.1 mm before the right edge and have equal gaps
JustifiedLines == (m.stk # <<>> /\ Top.k = "ln" /\ Top.li <= Len(Top.ls)) =>
  (Justified =>
     LET k == Len(Line.ws)
         gap(j) == Xs[j + 1] - Xs[j] - Line.ws[j].wd
     IN /\ Abs(Xs[k] + Line.ws[k].wd - (LineX + Top.W - 100)) <= 1
        /\ \A j \in 1..(k - 1) : Abs(gap(j) - gap(1)) <= 1)

\* C06: a body box that fits on an empty page lies above the bottom margin of its page
BoxAbove == (m.stk # <<>> /\ Top.k = "box" /\ Top.ph = 2 /\ m.sec = "B" /\ ~m.noBrk) =>
  LET st == Sty(Top.b)
      hh == PadT(st) + Top.h + PadB(st)
  IN (G.t + st.oy + hh < PrY1) => m.E.y + st.oy + hh < PrY1
\* C07: cells neither overlap nor get displaced
GridLaws == (m.stk # <<>> /\ Top.k = "tab" /\ Top.ph = 2 /\ Top.lay # <<>> /\ Top.row = 1) =>
  LET ps == Top.lay.pls IN NoOverlap(ps) /\ InOrder(ps) /\ LeftMost(ps)
\* C08: the columns fill the table's width if any of them is open
ColumnLaws == (m.stk # <<>> /\ Top.k = "tab" /\ Top.ph = 2 /\ Top.lay # <<>> /\ Top.row = 1) =>
  \A p, q \in 1..Len(Top.lay.pls) :
     LET a == Top.lay.pls[p]  b == Top.lay.pls[q] IN
     (a.c = b.c => a.x = b.x) /\ (a.c = b.c /\ a.cs = b.cs => a.w = b.w)
\* C09: every cell is as high as its content needs
HeightLaws == (m.stk # <<>> /\ Top.k = "tab" /\ Top.ph = 2 /\ Top.lay # <<>> /\ Top.row = 1) =>
  \A p \in 1..Len(Top.lay.pls) :
     LET a == Top.lay.pls[p] IN
     a.st.h <= 0 => a.h + a.rs >= LinesH(Doc.mode, Lay(a.is, a.W, a.st).ls, a.st) + PadT(a.st) + PadB(a.st)
\* C10: a row being painted lies on its page unless it is too high for any page
RowsWhole == (m.stk # <<>> /\ Top.k = "row" /\ Top.i = 1 /\ ~m.noBrk) =>
   \/ Top.y + FullH(Tab.lay, Top.r) <= PrY1
   \/ Len(Tab.q) > 1
   \/ FullH(Tab.lay, Top.r) + SumSeq([r \in 1..Min2(Tab.t.rep, Tab.lay.nr) |-> FullH(Tab.lay, r)]) > PrH
\* C13: header and footer of each page once, and nothing in them starts a page
HFCount(sec) == Cardinality({i \in 1..Len(m.T) : m.T[i].sec = sec})
NoBreakInside == m.sec # "B" => m.noBrk /\ (m.stk # <<>> => \A i \in 1..Len(m.stk) :
   m.stk[i].k = "pb" => m.stk[i].ph > 1)
\* C19: the budget of pages
NChars(is) == SumSeq([k \in 1..Len(is) |-> IF is[k].k \in {"t", "p"} THEN 1 + SumSeq([j \in 1..Len(is[k].w) |-> Len(is[k].w[j]) + 1])
                                         ELSE IF is[k].k \in {"box", "text"} THEN 1 + SumSeq([j \in 1..Len(is[k].is) |->
                                                IF is[k].is[j].k \in {"t", "p"} THEN 1 + SumSeq([q \in 1..Len(is[k].is[j].w) |-> Len(is[k].is[j].w[q]) + 1]) ELSE 1])
                                         ELSE 1])
SpanMax(cells) == FoldLeft(LAMBDA a, c : Max2(a, c.rs), 0, cells)
Summary(i) ==
  [k |-> i.k, chars |-> IF i.k \in {"text", "box"} THEN NChars(i.is)
                        ELSE IF i.k = "table" THEN SumSeq([r \in 1..Len(i.rows) |-> SumSeq([c \in 1..Len(i.rows[r].cells) |-> NChars(i.rows[r].cells[c].is)])])
                        ELSE 0,
   boxes |-> IF i.k = "table" THEN SumSeq([r \in 1..Len(i.rows) |-> SumSeq([c \in 1..Len(i.rows[r].cells) |-> Len(i.rows[r].cells[c].is)])]) ELSE 0,
   rows |-> IF i.k = "table" THEN Len(i.rows) + FoldLeft(LAMBDA a, r : Max2(a, SpanMax(r.cells)), 0, i.rows) ELSE 0]
PagesBounded == Done => m.E.pg <= 1 + SumSeq([k \in 1..Len(Doc.body) |-> Cost(Summary(Doc.body[k]))])
\* C19: whatever the document, the machine gets to its end (checked with the fairness of Spec)
Ends == <>Done
\* C12: header and footer start from the default font
HFDefault == (m.stk # <<>> /\ Top.k = "is" /\ Top.i = 1 /\ Len(m.stk) > 1 /\ m.stk[2].k = "hfe") => m.cur = DefaultFont
=============================================================================

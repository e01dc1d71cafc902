------------------------------- MODULE Xpdf -------------------------------
(* The layout machine: how the instructions of a document move the current  *)
(* position, start pages and put marks (words, rectangles, line segments,   *)
(* images) on them.                                                         *)
(*                                                                          *)
(* A behaviour processes one document d \in 1..Len(Docs). The work still to *)
(* be done is a stack of frames m.stk (top first); every action works on    *)
(* the top frame. Page breaks, headers, footers, boxes, tables, rows and    *)
(* cells are several actions each, because any of them can be interrupted   *)
(* by a page break and the header and footer that come with it.             *)
(*                                                                          *)
(* m.E       current position [pg, x, y]                                    *)
(* m.cur     font in force for the document (latest font instruction)       *)
(* m.noBrk   page breaks suppressed (header, footer, cell)                  *)
(* m.sec     section being set: "B"ody, "H"eader, "F"ooter                  *)
(* m.T R L I marks made so far; m.el, m.ln: running number of elements, lines *)
(* m.ix      a length was not representable (results off by a few um)       *)
(* m.amb     a decision was too close to call under that inexactness, or     *)
(*           left to the PDF library: such documents are not judged         *)
EXTENDS Lines, Grid
CONSTANT Docs
VARIABLES d, doc, n, m
vars == <<d, doc, n, m>>

Doc == doc       \* doc = Docs[d]
G   == Doc.g
PrX1 == G.w - G.r - 2000       \* printable area: 2 mm short of the right margin
PrY1 == G.h - G.b
PrW  == PrX1 - G.l
PrH  == PrY1 - G.t
EffW(avail, w) == IF w < 0 \/ w > avail THEN avail ELSE w

Top  == m.stk[1]
Rest == Tail(m.stk)
TopIs(k, ph) == m.stk # <<>> /\ Top.k = k /\ Top.ph = ph
Cur  == WithFont(DefaultStyle, m.cur)     \* surrounding style of every document-level element
Sty(e) == Cascade(Doc.cls, Cur, "", e.c, e.d)

\* positions; negative coordinates count from the right/bottom edge
SetXOf(E, x) == [E EXCEPT !.x = IF x < 0 THEN x + G.w ELSE x]
SetYOf(E, y) == SetXOf([E EXCEPT !.y = IF y < 0 THEN y + G.h ELSE y], E.x)
SetXYOf(E, x, y) == SetXOf(SetYOf(E, y), x)

\* sizes that are no whole points: every line and word is off by up to one um
FracTol == IF "frac" \in DOMAIN Doc THEN 40 ELSE 0
Tol == (IF Doc.mode = "pdf" THEN 60 ELSE 0) + (IF m.ix THEN 5 ELSE 0) + FracTol
Near(a, b) == Close(Tol, a, b)
Lay(iss, W, st) == LayOut(Doc, m.E.pg, Tol, iss, W, st)

-----------------------------------------------------------------------------
(* Pages, header and footer. *)
PB(keep, x) == [k |-> "pb", ph |-> 1, keep |-> keep, x |-> x]
HFEnd == [k |-> "hfe", ph |-> 1, x |-> m.E.x, y |-> m.E.y, cur |-> m.cur, noBrk |-> m.noBrk, sec |-> m.sec]
IsFrame(is) == [k |-> "is", ph |-> 1, is |-> is, i |-> 1]
\* m with header/footer content is pushed in front of the frames stk, at position E
StartHF(stk, E, sec, is) ==
  [m EXCEPT !.stk = <<IsFrame(is), [k |-> "hfe", ph |-> 1, x |-> E.x, y |-> E.y, cur |-> m.cur,
                                    noBrk |-> m.noBrk, sec |-> m.sec]>> \o stk,
            !.E = E, !.cur = DefaultFont, !.noBrk = TRUE, !.sec = sec]

BreakFooter == /\ TopIs("pb", 1)
               /\ m' = IF m.E.pg > 0 THEN StartHF(<<[Top EXCEPT !.ph = 2]>> \o Rest, m.E, "F", Doc.ftr)
                       ELSE [m EXCEPT !.stk[1].ph = 2]
BreakHeader == /\ TopIs("pb", 2)
               /\ m' = StartHF(<<[Top EXCEPT !.ph = 3]>> \o Rest,
                               [pg |-> m.E.pg + 1, x |-> G.l, y |-> G.t], "H", Doc.hdr)
BreakDone   == /\ TopIs("pb", 3)
               /\ m' = [m EXCEPT !.stk = Rest, !.E.x = IF Top.keep THEN Top.x ELSE @]
HFDone      == /\ TopIs("hfe", 1)
               /\ m' = [m EXCEPT !.stk = Rest, !.E = SetYOf(SetXOf(@, Top.x), Top.y),
                                 !.cur = Top.cur, !.noBrk = Top.noBrk, !.sec = Top.sec]
\* the footer of the last page
Finish1 == /\ TopIs("fin", 1)
           /\ m' = IF m.E.pg > 0 THEN StartHF(<<[Top EXCEPT !.ph = 2]>> \o Rest, m.E, "F", Doc.ftr)
                   ELSE [m EXCEPT !.stk[1].ph = 2]
Finish2 == TopIs("fin", 2) /\ m' = [m EXCEPT !.stk = <<>>]

-----------------------------------------------------------------------------
(* Instructions. *)
Ins == Top.is[Top.i]
Ready(k) == TopIs("is", 1) /\ Top.i <= Len(Top.is) /\ Ins.k = k
Adv == <<[Top EXCEPT !.i = @ + 1]>> \o Rest
InstrEnd == TopIs("is", 1) /\ Top.i > Len(Top.is) /\ m' = [m EXCEPT !.stk = Rest]

InstrFont == Ready("font") /\ m' = [m EXCEPT !.stk = Adv, !.cur = Font(Sty(Ins))]
InstrLineFeed == Ready("lf") /\ m' = [m EXCEPT !.stk = Adv,
      !.E = [@ EXCEPT !.x = G.l, !.y = @ + (FontH(Doc.mode, m.cur) * Ins.v) \div 1000]]
InstrSetX == Ready("setx") /\ m' = [m EXCEPT !.stk = Adv, !.E = SetXOf(@, Ins.v)]
InstrSetY == Ready("sety") /\ m' = [m EXCEPT !.stk = Adv, !.E = SetYOf(@, Ins.v)]
InstrNewPage == Ready("newpage") /\ m' = [m EXCEPT !.stk = IF m.noBrk THEN Adv ELSE <<PB(FALSE, 0)>> \o Adv]
InstrGrid == Ready("grid") /\ m' = [m EXCEPT !.stk = Adv]

-----------------------------------------------------------------------------
(* Lines of text. *)
LinesFrame(lo, xl, W, st, rid) ==
  [k |-> "ln", ph |-> 1, ls |-> lo.ls, li |-> 1, wi |-> 1, xl |-> xl, W |-> W, st |-> st, fresh |-> FALSE, rid |-> rid]

InstrText == /\ Ready("text")
             /\ LET st == Sty(Ins)
                    W  == EffW(PrW, st.w)
                    lo == Lay(Ins.is, W, st)
                IN m' = [m EXCEPT !.stk = <<LinesFrame(lo, m.E.x, W, st, 0)>> \o Adv,
                                  !.amb = @ \/ lo.amb, !.el = @ + 1]

Line == Top.ls[Top.li]
\* the left edge of the line
LineX0 == CASE Top.st.ha = "right"  -> Top.xl + Top.W - Line.w
            [] Top.st.ha = "center" -> Top.xl + (Top.W - Line.w) \div 2
            [] OTHER -> Top.xl
LineX == SetXOf(m.E, LineX0).x
Justified == IsBlock(Top.st) /\ Len(Line.ws) > 1 /\ ~Line.par
Xs == IF Justified THEN WordXs(Line, LineX, Top.W, Top.st) ELSE PlainXs(Line.ws, LineX)
\* words that do not fit above the bottom margin start a page (body only)
Over(j) == m.sec = "B" /\ m.E.y + FontH(Doc.mode, Line.ws[j].f) > PrY1
\* text beyond the printable area: left to the PDF library
Outside == \/ Doc.mode = "pdf" /\ \E j \in 1..Len(Line.ws) : Xs[j] < 0 \/ Xs[j] + Line.ws[j].wd > PrX1 - 30
           \/ LineX0 # Top.xl /\ Near(LineX0, 0)
OverAmb(j) == m.sec = "B" /\ Near(m.E.y + FontH(Doc.mode, Line.ws[j].f), PrY1)
BreakAt == LET ks == {j \in Top.wi..Len(Line.ws) : Over(j) /\ ~(Top.fresh /\ j = Top.wi)}
           IN IF ks = {} THEN Len(Line.ws) + 1 ELSE CHOOSE j \in ks : \A q \in ks : j <= q
WordMarks(from, to) ==
  LET xs == Xs IN
  Tup([j \in 1..(to - from + 1) |->
     LET w == Line.ws[from + j - 1] IN
     [pg |-> m.E.pg, x |-> xs[from + j - 1], y |-> m.E.y, s |-> w.s, f |-> w.f, c |-> w.tx,
      sec |-> m.sec, hy |-> w.hy, el |-> m.el, ln |-> m.ln, rid |-> Top.rid, blk |-> IsBlock(Top.st)]])

LineWords ==      \* (the rest of) a line fits
  /\ TopIs("ln", 1) /\ Top.li <= Len(Top.ls) /\ BreakAt > Len(Line.ws)
  /\ m' = [m EXCEPT
       !.T   = @ \o WordMarks(Top.wi, Len(Line.ws)),
       !.E   = [@ EXCEPT !.x = G.l, !.y = @ + Advance(Doc.mode, Line, Top.st)],
       !.ln  = @ + 1,
       !.amb = @ \/ (\E j \in Top.wi..Len(Line.ws) : OverAmb(j)) \/ Outside,
       !.stk = <<[Top EXCEPT !.li = @ + 1, !.wi = 1, !.fresh = FALSE]>> \o Rest]
LineBreaksPage ==  \* the page ends before word BreakAt of the line
  /\ TopIs("ln", 1) /\ Top.li <= Len(Top.ls) /\ BreakAt <= Len(Line.ws)
  /\ LET b == BreakAt
         x == IF b = 1 THEN LineX ELSE IF Justified THEN Xs[b] ELSE Xs[b - 1] + Line.ws[b - 1].wd
     IN m' = [m EXCEPT
       !.T   = @ \o WordMarks(Top.wi, b - 1),
       !.amb = @ \/ (\E j \in Top.wi..b : OverAmb(j)) \/ Outside
                 \* how much of a run of text higher than the page goes on one page is not specified
                 \/ (b > 1 /\ Line.ws[b].f = Line.ws[Max2(b - 1, 1)].f),
       !.E.x = x,
       !.stk = <<PB(TRUE, x), [Top EXCEPT !.wi = b, !.fresh = TRUE]>> \o Rest]
LinesDone == TopIs("ln", 1) /\ Top.li > Len(Top.ls) /\ m' = [m EXCEPT !.stk = Rest]

-----------------------------------------------------------------------------
(* Rectangles. *)
DrawRect(mm, x0, y0, x1, y1, st, kind) ==
  LET hl == st.lw \div 2
      seg(a, b, c, e) == [pg |-> mm.E.pg, x0 |-> a, y0 |-> b, x1 |-> c, y1 |-> e, lw |-> st.lw, c |-> st.fg, sec |-> mm.sec]
  IN [mm EXCEPT
        !.R = Append(@, [pg |-> mm.E.pg, x |-> x0 + hl, y |-> y0 + hl, w |-> x1 - x0 - 2 * hl, h |-> y1 - y0 - 2 * hl,
                         c |-> st.bg, sec |-> mm.sec, kind |-> kind, x0 |-> x0, y0 |-> y0, x1 |-> x1, y1 |-> y1, el |-> mm.el]),
        !.L = @ \o (IF st.bor[2] > 0 THEN <<seg(x0 - hl, y0, x1, y0)>> ELSE <<>>)
                \o (IF st.bor[3] > 0 THEN <<seg(x1, y0, x1, y1)>> ELSE <<>>)
                \o (IF st.bor[4] > 0 THEN <<seg(x0, y1, x1, y1)>> ELSE <<>>)
                \o (IF st.bor[1] > 0 THEN <<seg(x0, y0, x0, y1)>> ELSE <<>>)]

-----------------------------------------------------------------------------
(* Boxes: W0 is the width available to the box. *)
BoxFrame(b, W0, kind) == [k |-> "box", ph |-> 1, b |-> b, W0 |-> W0, kind |-> kind, W |-> 0, h |-> 0, y1 |-> 0]
BoxW(st, W0) == EffW(W0, st.w) - PadL(st) - PadR(st)
BoxContent(iss, W, st) ==      \* [h, amb]
  IF st.h > 0 THEN [h |-> st.h, amb |-> FALSE]
  ELSE LET lo == Lay(iss, W, st)
       IN [h |-> IF lo.ls = <<>> THEN FontH(Doc.mode, Font(st)) ELSE LinesH(Doc.mode, lo.ls, st), amb |-> lo.amb]

InstrBox == Ready("box") /\ m' = [m EXCEPT !.stk = <<BoxFrame(Ins, PrW, "box")>> \o Adv, !.el = @ + 1]

BoxPlace ==
  /\ TopIs("box", 1)
  /\ LET st == Sty(Top.b)
         W  == BoxW(st, Top.W0)
         bc == BoxContent(Top.b.is, W, st)
         bottom == m.E.y + st.oy + PadT(st) + bc.h + PadB(st)
         brk == ~m.noBrk /\ bottom >= PrY1
         f  == [Top EXCEPT !.ph = 2, !.W = W, !.h = bc.h]
     IN m' = [m EXCEPT !.stk = (IF brk THEN <<PB(FALSE, 0)>> ELSE <<>>) \o <<f>> \o Rest,
                       !.amb = @ \/ bc.amb \/ (~m.noBrk /\ Near(bottom, PrY1))]
BoxDraw ==
  /\ TopIs("box", 2)
  /\ LET st == Sty(Top.b)
         x0 == m.E.x + st.ox
         y0 == m.E.y + st.oy
         y1 == y0 + Top.h + PadT(st) + PadB(st)
         m1 == DrawRect(m, x0, y0, x0 + Top.W + PadL(st) + PadR(st), y1, st, Top.kind)
         lo == Lay(Top.b.is, Top.W, st)
         E1 == SetXYOf(m.E, x0 + PadL(st), y0 + PadT(st))
     IN m' = [m1 EXCEPT !.E = E1,
                !.stk = <<LinesFrame(lo, E1.x, Top.W, st, Len(m1.R)), [Top EXCEPT !.ph = 3, !.y1 = y1]>> \o Rest,
                !.amb = @ \/ lo.amb \/ (st.ox # 0 /\ Near(x0 + PadL(st), 0)) \/ (st.oy # 0 /\ Near(y0 + PadT(st), 0))]
BoxDone ==
  /\ TopIs("box", 3)
  /\ m' = [m EXCEPT !.stk = Rest, !.E = SetXYOf(m.E, G.l, Top.y1)]

-----------------------------------------------------------------------------
(* Images: i.pw x i.ph pixels; i.ok: readable. AW x AH: area available.     *)
ImgMark(E, sec, i, st, AW, AH) ==
  LET aw == AW - st.ox
      ah == AH - st.oy
      \* size asked for
      w0 == IF st.w > 0 THEN st.w ELSE IF st.h > 0 THEN MulDiv(st.h, i.pw, i.ph) ELSE MulDiv(i.pw, 25400, 96)
      h0 == IF st.h > 0 THEN st.h ELSE IF st.w > 0 THEN MulDiv(st.w, i.ph, i.pw) ELSE MulDiv(i.ph, 25400, 96)
      \* exact proportions: those asked for, or else those of the image
      pw == IF st.w > 0 /\ st.h > 0 THEN st.w ELSE i.pw
      ph == IF st.w > 0 /\ st.h > 0 THEN st.h ELSE i.ph
      w1 == IF w0 > aw THEN aw ELSE w0
      h1 == IF w0 > aw THEN MulDiv(aw, ph, pw) ELSE h0
      w2 == IF h1 > ah THEN MulDiv(ah, pw, ph) ELSE w1
      h2 == IF h1 > ah THEN ah ELSE h1
  IN [pg |-> E.pg, x |-> E.x + st.ox, y |-> E.y + st.oy, w |-> w2, h |-> h2,
      src |-> IF Doc.mode = "pdf" THEN i.px ELSE i.src, sec |-> sec]
\* what the PDF library does with an image without extent, or left of the page, is not specified
NoRoom(i, k) == Doc.mode = "pdf" /\ i.ok /\ (k.w <= 0 \/ k.h <= 0 \/ k.x < Tol) /\ "strict" \notin DOMAIN Doc
PutImg(mm, i, AW, AH) ==
  LET k == ImgMark(mm.E, mm.sec, i, Sty(i), AW, AH)
  IN [mm EXCEPT !.I = IF i.ok THEN Append(@, k) ELSE @, !.amb = @ \/ NoRoom(i, k)]

InstrImage == Ready("image") /\ m' = PutImg([m EXCEPT !.stk = Adv], Ins, PrW, PrH)

-----------------------------------------------------------------------------
(* Tables. *)
CellSel(i, k, sels) == IF i = 1 THEN sels[1] ELSE IF i = k THEN sels[2] ELSE ""
TabStyle(t) == Sty(t)
CellStyle(t, r, i) ==
  LET row  == t.rows[r]
      rst  == Cascade(Doc.cls, TabStyle(t), CellSel(r, Len(t.rows), <<"first-row", "last-row">>), row.c, row.d)
      cell == row.cells[i]
  IN Cascade(Doc.cls, rst, CellSel(i, Len(row.cells), <<"first-cell", "last-cell">>), cell.c, cell.d)

\* what layout makes of a table: placements with their styles, column widths, row heights
Layout(t) ==
  LET pls  == Place([r \in 1..Len(t.rows) |-> t.rows[r].cells])
      nc   == ColCount(pls)
      nr   == RowCount(pls, Len(t.rows))
      stys == Tup([p \in 1..Len(pls) |-> CellStyle(t, pls[p].r, pls[p].i)])
      tw   == EffW(PrW, TabStyle(t).w)
      \* column widths
      own  == Tup([c \in 1..nc |-> FoldLeft(LAMBDA a, p : IF pls[p].c = c THEN Max2(a, stys[p].cw) ELSE a, 0, [p \in 1..Len(pls) |-> p])])
      open == Cardinality({c \in 1..nc : own[c] = 0})
      left == tw - SumSeq(own)
      \* right edge of column c (computed from the left edge of the table: no error accumulates)
      edge(c) == SumSeq(SubSeq(own, 1, c)) +
                 (IF open = 0 THEN 0 ELSE (Cardinality({q \in 1..c : own[q] = 0}) * left) \div open)
      cws  == Tup([c \in 1..nc |-> edge(c) - edge(c - 1)])
      \* row heights
      cellW(p) == SumSeq([k \in 1..pls[p].cs |-> cws[pls[p].c + k - 1]])
      inW(p)   == cellW(p) - PadL(stys[p]) - PadR(stys[p])
      cell(p)  == t.rows[pls[p].r].cells[pls[p].i]
      text(p)  == Lay(cell(p).is, inW(p), stys[p])
      boxes(p) == SelectSeq(cell(p).is, LAMBDA b : b.k = "box")
      boxH(b, W) == LET s == Sty(b)
                        bc == BoxContent(b.is, BoxW(s, W), s)
                    IN [h |-> PadT(s) + bc.h + PadB(s), amb |-> bc.amb]
      content(p) == FoldLeft(LAMBDA a, b : LET bh == boxH(b, inW(p)) IN [h |-> Max2(a.h, bh.h), amb |-> a.amb \/ bh.amb],
                             [h |-> LinesH(Doc.mode, text(p).ls, stys[p]), amb |-> text(p).amb], boxes(p))
      need == Tup([p \in 1..Len(pls) |->
                 IF stys[p].h > 0 THEN [h |-> stys[p].h, rs |-> 1, ix |-> FALSE, amb |-> FALSE]
                 ELSE LET cn == content(p)
                          tot == cn.h + PadT(stys[p]) + PadB(stys[p])
                      IN [h |-> tot \div pls[p].rs, rs |-> pls[p].rs, ix |-> (tot % (pls[p].rs)) # 0, amb |-> cn.amb]])
      hs == Tup([r \in 1..nr |-> FoldLeft(LAMBDA a, p : IF pls[p].r <= r /\ r < pls[p].r + need[p].rs THEN Max2(a, need[p].h) ELSE a,
                                      0, [p \in 1..Len(pls) |-> p])])
  IN [pls |-> Tup([p \in 1..Len(pls) |-> pls[p] @@ [st |-> stys[p], W |-> inW(p), w |-> cellW(p),
                h |-> SumSeq([k \in 1..pls[p].rs |-> hs[pls[p].r + k - 1]]),
                x |-> SumSeq([k \in 1..(pls[p].c - 1) |-> cws[k]]), is |-> cell(p).is]]),
      nc |-> nc, nr |-> nr, cws |-> cws, hs |-> hs,
      ix |-> (open > 0 /\ (left % (125 * Max2(1, open))) # 0) \/ \E p \in 1..Len(pls) : need[p].ix,
      amb |-> \E p \in 1..Len(pls) : need[p].amb]

\* height of a row together with the rows its cells span
FullH(lay, r) == FoldLeft(LAMBDA a, p : IF lay.pls[p].r = r THEN Max2(a, lay.pls[p].h) ELSE a,
                          lay.hs[r], [p \in 1..Len(lay.pls) |-> p])

TabFrame(t) == [k |-> "tab", ph |-> 1, t |-> t, lay |-> <<>>, x0 |-> 0, y |-> 0, row |-> 1, q |-> <<>>]
InstrTable == Ready("table") /\ m' = [m EXCEPT !.stk = <<TabFrame(Ins)>> \o Adv, !.el = @ + 1]

TableStart ==       \* lay the table out; it starts on a new page if its head does not fit
  /\ TopIs("tab", 1)
  /\ LET lay == Layout(Top.t)
         head == SumSeq([r \in 1..Min2(Top.t.rep + 1, lay.nr) |-> FullH(lay, r)])
         brk  == ~m.noBrk /\ m.E.y + head > PrY1
         f    == [Top EXCEPT !.ph = 2, !.lay = lay, !.x0 = m.E.x, !.y = IF brk THEN -1 ELSE m.E.y]
     IN IF lay.nc = 0 THEN m' = [m EXCEPT !.stk = Rest]
        ELSE m' = [m EXCEPT !.stk = (IF brk THEN <<PB(FALSE, 0)>> ELSE <<>>) \o <<f>> \o Rest,
                            !.ix = @ \/ lay.ix,
                            !.amb = @ \/ lay.amb \/ (~m.noBrk /\ Close(Tol + (IF lay.ix THEN 5 ELSE 0), m.E.y + head, PrY1))]
\* the frame's y is -1 after a page break: continue at the top of the page
TabY == IF Top.y = -1 THEN m.E.y ELSE Top.y
TableRow ==         \* next row; a row that does not fit starts a page, below the repeated header rows
  /\ TopIs("tab", 2) /\ Top.q = <<>> /\ Top.row <= Top.lay.nr
  /\ LET bot == TabY + FullH(Top.lay, Top.row)
         brk == ~m.noBrk /\ bot > PrY1
         rep == IF brk /\ Top.row > Top.t.rep THEN Tup([r \in 1..Min2(Top.t.rep, Top.lay.nr) |-> r]) ELSE <<>>
         f   == [Top EXCEPT !.q = rep \o <<Top.row>>, !.y = IF brk THEN -1 ELSE TabY, !.row = @ + 1]
     IN m' = [m EXCEPT !.stk = (IF brk THEN <<PB(FALSE, 0)>> ELSE <<>>) \o <<f>> \o Rest,
                       !.amb = @ \/ (~m.noBrk /\ Near(bot, PrY1))]
TablePaintRow ==
  /\ TopIs("tab", 2) /\ Top.q # <<>>
  /\ LET f == [Top EXCEPT !.y = TabY]
     IN m' = [m EXCEPT !.stk = <<[k |-> "row", ph |-> 1, r |-> Head(Top.q), i |-> 1, y |-> TabY]>> \o <<f>> \o Rest]
Tab == m.stk[2]
RowCells(lay, r) == SelectSeq(lay.pls, LAMBDA p : p.r = r)
RowCell ==
  /\ TopIs("row", 1) /\ Top.i <= Len(RowCells(Tab.lay, Top.r))
  /\ LET c == RowCells(Tab.lay, Top.r)[Top.i]
         f == [k |-> "cell", ph |-> 1, c |-> c, x |-> Tab.x0 + c.x, y |-> Top.y, i |-> 1, noBrk |-> m.noBrk, rid |-> 0]
     IN m' = [m EXCEPT !.stk = <<f, [Top EXCEPT !.i = @ + 1]>> \o Rest, !.noBrk = TRUE, !.el = @ + 1]
RowDone ==
  /\ TopIs("row", 1) /\ Top.i > Len(RowCells(Tab.lay, Top.r))
  /\ m' = [m EXCEPT !.stk = <<[Tab EXCEPT !.y = Top.y + Tab.lay.hs[Top.r], !.q = Tail(@)]>> \o Tail(Rest),
                    !.E = SetXOf(@, Tab.x0)]
TableDone ==
  /\ TopIs("tab", 2) /\ Top.q = <<>> /\ Top.row > Top.lay.nr
  /\ m' = [m EXCEPT !.stk = Rest, !.E = SetYOf(@, TabY)]

\* vertical alignment of something h high in the padded cell
CellX == Top.x + PadL(Top.c.st)
CellY == Top.y + PadT(Top.c.st)
CellH == Top.c.h - PadT(Top.c.st) - PadB(Top.c.st)
VPos(h) == CASE Top.c.st.va = "middle" -> Max2(0, CellY + (CellH - h) \div 2)
             [] Top.c.st.va = "bottom" -> Max2(0, CellY + CellH - h)
             [] OTHER -> CellY
CellDraw ==
  /\ TopIs("cell", 1)
  /\ LET c  == Top.c
         m1 == DrawRect(m, Top.x, Top.y, Top.x + c.w, Top.y + c.h, c.st, "cell")
         lo == Lay(c.is, c.W, c.st)
         E1 == SetXYOf(m.E, CellX, VPos(LinesH(Doc.mode, lo.ls, c.st)))
         f  == [Top EXCEPT !.ph = 2, !.rid = Len(m1.R)]
     IN m' = IF c.is = <<>> THEN [m1 EXCEPT !.stk = <<f>> \o Rest]
             ELSE [m1 EXCEPT !.stk = <<LinesFrame(lo, E1.x, c.W, c.st, Len(m1.R)), f>> \o Rest,
                             !.E = E1, !.amb = @ \/ lo.amb]
CellItem ==
  /\ TopIs("cell", 2) /\ Top.i <= Len(Top.c.is)
  /\ LET b  == Top.c.is[Top.i]
         E0 == SetXOf(m.E, CellX)
         f  == [Top EXCEPT !.i = @ + 1]
     IN m' = CASE b.k = "box" ->
                  LET s  == Sty(b)
                      bc == BoxContent(b.is, BoxW(s, Top.c.W), s)
                  IN [m EXCEPT !.E = SetYOf(E0, VPos(PadT(s) + bc.h + PadB(s))), !.el = @ + 1,
                               !.stk = <<BoxFrame(b, Top.c.W, "cbox"), f>> \o Rest, !.amb = @ \/ bc.amb]
               [] b.k = "image" ->
                  LET m1 == [m EXCEPT !.E = SetYOf(E0, CellY), !.stk = <<f>> \o Rest]
                  IN PutImg(m1, b, Top.c.W, CellH)
               [] OTHER -> [m EXCEPT !.E = E0, !.stk = <<f>> \o Rest]
CellDone ==
  /\ TopIs("cell", 2) /\ Top.i > Len(Top.c.is)
  /\ m' = [m EXCEPT !.stk = Rest, !.noBrk = Top.noBrk]

-----------------------------------------------------------------------------
InitM(dd) == [stk |-> <<PB(FALSE, 0), IsFrame(dd.body), [k |-> "fin", ph |-> 1]>>,
               E |-> [pg |-> 0, x |-> 0, y |-> 0], cur |-> DefaultFont, noBrk |-> FALSE, sec |-> "B",
               T |-> <<>>, R |-> <<>>, L |-> <<>>, I |-> <<>>, el |-> 0, ln |-> 0, ix |-> FALSE, amb |-> FALSE]
Init == LET ds == Docs IN
        \E i \in 1..Len(ds) : d = i /\ doc = ds[i] @@ [pt |-> PatTable(ds[i].pats)] /\ n = 0 /\ m = InitM(ds[i])
Act == \/ BreakFooter \/ BreakHeader \/ BreakDone \/ HFDone \/ Finish1 \/ Finish2
       \/ InstrEnd \/ InstrFont \/ InstrLineFeed \/ InstrSetX \/ InstrSetY \/ InstrNewPage \/ InstrGrid
       \/ InstrText \/ LineWords \/ LineBreaksPage \/ LinesDone
       \/ InstrBox \/ BoxPlace \/ BoxDraw \/ BoxDone \/ InstrImage
       \/ InstrTable \/ TableStart \/ TableRow \/ TablePaintRow \/ RowCell \/ RowDone \/ TableDone
       \/ CellDraw \/ CellItem \/ CellDone
Next == m.stk # <<>> /\ Act /\ n' = n + 1 /\ UNCHANGED <<d, doc>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == m.stk = <<>>
StepView == <<d, n>>      \* behaviours are deterministic for each document
=============================================================================

------------------------------- MODULE Lines -------------------------------
(* Breaking of inline content into lines (C02), line heights, and the       *)
(* horizontal positions of words (C03).                                     *)
EXTENDS Styles, Hyphen, Metrics

(* Metrics by engine mode. "fake": fixed pitch in 1/8 mm; "pdf": the standard *)
(* PDF fonts.                                                                *)
PdfName(f) ==
  LET b == f.fwt = "bold"  i == f.fst = "italic"
      v(r, bd, it, bi) == IF b /\ i THEN bi ELSE IF b THEN bd ELSE IF i THEN it ELSE r
  IN CASE f.fam = "Courier" -> v("Courier", "Courier-Bold", "Courier-Oblique", "Courier-BoldOblique")
       [] f.fam \in {"Arial", "Helvetica"} -> v("Helvetica", "Helvetica-Bold", "Helvetica-Oblique", "Helvetica-BoldOblique")
       [] f.fam = "Times" -> v("Times-Roman", "Times-Bold", "Times-Italic", "Times-BoldItalic")
       [] OTHER -> "?"
\* the variant of a family a font asks for
Variant(f) == (IF f.fwt = "bold" THEN "B" ELSE "") \o (IF f.fst = "italic" THEN "I" ELSE "")
FakeCharW(f) == (IF f.fam = "Courier" THEN 375 ELSE 250) + (IF f.fwt = "bold" THEN 125 ELSE 0)
StdFamily(f) == f.fam \in {"Courier", "Arial", "Helvetica", "Times"}
Em(ws, s) == FoldLeft(LAMBDA a, i : a + (LET c == CharAt(s, i) IN IF c \in DOMAIN ws THEN ws[c] ELSE 600), 0, [i \in 1..Len(s) |-> i])
\* em/1000 at pt/10 points (within 32 bits)
PtW(em, pt) == IF (pt % 10) = 0 THEN (em * (pt \div 10) * 127 + 180) \div 360 ELSE MulDiv(em, pt * 127, 3600)
\* the width of a string; registered fonts are fixed pitch
StrW(mode, f, s) ==
  IF mode # "pdf" THEN (FakeCharW(f) * f.pt * Len(s)) \div 10
  ELSE IF StdFamily(f) THEN PtW(Em(StdWidths(PdfName(f)), s), f.pt)
  ELSE PtW(602 * Len(s), f.pt)
FontH(mode, f) == IF mode = "pdf" THEN (f.pt * 2540 + 36) \div 72 ELSE (f.pt * 375) \div 10

(* Inline content -> tokens. Words are [k |-> "w", s, f, tx]; page numbers  *)
(* are substituted here, i.e. when the content is laid out.                 *)
Subst(w, cp, pg) == IF cp THEN ReplaceStr(w, "{cp}", ToString(pg)) ELSE w
Tokens(doc, pg, iss, st) ==
  FoldLeft(LAMBDA acc, i :
     CASE i.k = "br" -> Append(acc, [k |-> "br"])
       [] i.k = "t"  -> acc \o [j \in 1..Len(i.w) |->
                           [k |-> "w", s |-> Subst(i.w[j], i.cp, pg), f |-> Font(st), tx |-> st.tx]]
       [] i.k = "p"  -> LET ps == Cascade(doc.cls, st, "", i.c, i.d)
                        IN acc \o [j \in 1..Len(i.w) |->
                           [k |-> "w", s |-> Subst(i.w[j], i.cp, pg), f |-> Font(ps), tx |-> ps.tx]]
       [] OTHER -> acc,
     <<>>, iss)

\* hy: "" a whole word, "a" its hyphenated first piece, "b" the remainder
Word(mode, t, s, hy) == [s |-> s, f |-> t.f, tx |-> t.tx, cw |-> StrW(mode, t.f, " "), wd |-> StrW(mode, t.f, s), hy |-> hy]

(* One step of greedy filling. acc = [ls, ws, w, amb]: finished lines, the  *)
(* words of the current line and its width, every word counted together     *)
(* with one space. amb: a comparison was too close to call (only with       *)
(* inexact metrics, tol > 0).                                               *)
Finish(acc, par) == [acc EXCEPT !.ls = Append(@, [ws |-> acc.ws, w |-> acc.w, par |-> par]), !.ws = <<>>, !.w = 0]
AddWord(acc, wrd, width) == [acc EXCEPT !.ws = Append(@, wrd), !.w = @ + width]
Close(tol, a, b) == tol > 0 /\ Abs(a - b) <= tol

FillPlain(mode, W, tol, acc, t) ==
  IF t.k = "br" THEN Finish(acc, TRUE)
  ELSE LET wrd == Word(mode, t, t.s, "")
           ww  == wrd.wd + wrd.cw
           a1  == IF Close(tol, acc.w + ww, W) /\ acc.ws # <<>> THEN [acc EXCEPT !.amb = TRUE] ELSE acc
       IN IF acc.w + ww >= W /\ acc.ws # <<>>
          THEN AddWord(Finish(a1, FALSE), wrd, ww)
          ELSE AddWord(a1, wrd, ww)

\* the number of pieces (< Len(parts)) whose hyphenated concatenation fits, 0 if none
TrialW(mode, f, parts, i) == StrW(mode, f, " " \o ConcatStr(SubSeq(parts, 1, i)) \o "-")
RECURSIVE FitPieces(_, _, _, _, _)
FitPieces(mode, f, avail, parts, i) ==
  IF i = 0 THEN 0
  ELSE IF TrialW(mode, f, parts, i) <= avail THEN i
  ELSE FitPieces(mode, f, avail, parts, i - 1)

FillHyph(mode, pt, W, tol, acc, t) ==
  IF t.k = "br" THEN Finish(acc, TRUE)
  ELSE LET wrd == Word(mode, t, t.s, "")
           ww  == wrd.wd + wrd.cw
           a1  == IF Close(tol, acc.w + ww, W) THEN [acc EXCEPT !.amb = TRUE] ELSE acc
       IN IF acc.w + ww < W THEN AddWord(a1, wrd, ww)
          ELSE LET parts == Hyphenate(pt, t.s)
                   m     == FitPieces(mode, t.f, W - acc.w, parts, Len(parts) - 1)
                   a2    == IF tol > 0 /\ \E i \in 1..(Len(parts) - 1) :
                                 Close(tol, TrialW(mode, t.f, parts, i), W - acc.w)
                            THEN [a1 EXCEPT !.amb = TRUE] ELSE a1
               IN IF m = 0
                  THEN AddWord(IF acc.ws = <<>> THEN a2 ELSE Finish(a2, FALSE), wrd, ww)
                  ELSE LET s1 == ConcatStr(SubSeq(parts, 1, m)) \o "-"
                           s2 == ConcatStr(SubSeq(parts, m + 1, Len(parts)))
                           p1 == Word(mode, t, s1, "a")
                           p2 == Word(mode, t, s2, "b")
                       IN AddWord(Finish(AddWord(a2, p1, p1.wd + p1.cw), FALSE), p2, p2.wd)

IsBlock(st) == st.ha = "block"

\* [ls |-> lines, amb |-> BOOLEAN]
LayOut(doc, pg, tol, iss, W, st) ==
  LET toks == Tokens(doc, pg, iss, st)
      init == [ls |-> <<>>, ws |-> <<>>, w |-> 0, amb |-> FALSE]
      acc  == IF IsBlock(st)
              THEN FoldLeft(LAMBDA a, t : FillHyph(doc.mode, doc.pt, W, tol, a, t), init, toks)
              ELSE FoldLeft(LAMBDA a, t : FillPlain(doc.mode, W, tol, a, t), init, toks)
      fin  == IF acc.ws = <<>> THEN acc ELSE Finish(acc, TRUE)
  IN [ls |-> fin.ls, amb |-> fin.amb]

\* the highest font of a line (the first of equals); an empty line has the font of its content
LineFont(line, st) ==
  FoldLeft(LAMBDA f, w : IF w.f.pt > f.pt THEN w.f ELSE f,
           IF line.ws = <<>> THEN Font(st) ELSE line.ws[1].f, line.ws)
Advance(mode, line, st) == (FontH(mode, LineFont(line, st)) * st.ls) \div 1000

\* line spacing between the lines, none below the last
LinesH(mode, ls, st) ==
  SumSeq([i \in 1..Len(ls) |-> IF i < Len(ls) THEN Advance(mode, ls[i], st)
                               ELSE FontH(mode, LineFont(ls[i], st))])

(* Positions of the words of one line of content W wide with left edge xl.  *)
SumTo(ws, k) == SumSeq([j \in 1..k |-> ws[j].wd])
PlainXs(ws, x) ==
  FoldLeft(LAMBDA acc, k : Append(acc, IF k = 1 THEN x ELSE acc[k - 1] + ws[k - 1].wd + ws[k].cw), <<>>, Tup([k \in 1..Len(ws) |-> k]))
WordXs(line, xl, W, st) ==
  CASE st.ha = "right"  -> PlainXs(line.ws, xl + W - line.w)
    [] st.ha = "center" -> PlainXs(line.ws, xl + (W - line.w) \div 2)
    [] IsBlock(st) /\ Len(line.ws) > 1 /\ ~line.par ->
         LET slack == W - 100 - SumTo(line.ws, Len(line.ws))
         IN Tup([k \in 1..Len(line.ws) |-> xl + SumTo(line.ws, k - 1) + ((k - 1) * slack) \div (Len(line.ws) - 1)])
    [] OTHER -> PlainXs(line.ws, xl)
=============================================================================

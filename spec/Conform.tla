------------------------------ MODULE Conform ------------------------------
(* Compares the marks the layout machine makes for a document with those    *)
(* observed from the code (Doc.obs). A difference is classified by aspects; *)
(* each property is about some of them.                                     *)
EXTENDS Xpdf, Json
CONSTANT Prop
Obs == Doc.obs
Pdf == Doc.mode = "pdf"
CTol == (IF Pdf THEN 60 ELSE 3) + (IF m.ix THEN 6 ELSE 0) + FracTol
Off(a, b) == Abs(a - b) > CTol

\* the font registered for a family and variant: the first registration counts (C22)
Registered(f) == IF "reg" \in DOMAIN Doc THEN SelectSeq(Doc.reg, LAMBDA x : x.n = f.fam /\ x.v = Variant(f)) ELSE <<>>
KnownFont(f) == StdFamily(f) \/ Registered(f) # <<>>
PdfFont(f) == IF StdFamily(f) \/ ~KnownFont(f) THEN PdfName(f)
              ELSE Registered(f)[1].key \o Variant(f) \o "=" \o Registered(f)[1].face
ObsFont(f) == IF Pdf THEN PdfFont(f) \o "/" \o PtStr(f.pt) \o (IF f.fdc = "underline" THEN "/U" ELSE "") ELSE FontKey(f)
ObsWord(s) == IF Pdf THEN ReplaceStr(s, "{np}", ToString(m.E.pg)) ELSE s

\* the marks of some sections; in a PDF the sections cannot be told apart
InSec(seq, S) == IF Pdf THEN (IF "B" \in S THEN seq ELSE <<>>) ELSE SelectSeq(seq, LAMBDA x : x.sec \in S)
\* the number of pages may be narrower or wider than its placeholder, so where the words after it on the line start is open
HasNp(w) == Pdf /\ ReplaceStr(w.s, "{np}", "") # w.s
AfterNp(t) == FoldLeft(LAMBDA acc, i : Append(acc, i > 1 /\ t[i].ln = t[i - 1].ln /\ (acc[i - 1] \/ HasNp(t[i - 1]))),
                       <<>>, Tup([i \in 1..Len(t) |-> i]))
ET(S) == LET t == InSec(m.T, S)
             a == AfterNp(t)
         IN Tup([i \in 1..Len(t) |-> [np |-> a[i]] @@ [t[i] EXCEPT !.s = ObsWord(@), !.f = ObsFont(@)]])
OT(S) == InSec(Obs.T, S)

If(c, a) == IF c THEN {a} ELSE {}
LMin(S) == CHOOSE x \in S : \A y \in S : x <= y
\* length of the common prefix
Agree(e, o) == LET k == Min2(Len(e), Len(o))
                   bad == {i \in 1..k : e[i].s # o[i].s}
               IN IF bad = {} THEN k ELSE LMin(bad) - 1

\* The order in which rectangles are painted matters only where they overlap:
\* RPos gives for each rectangle of the specification its place among those
\* observed, keeping the order of overlapping ones.
SameRect(a, b) == /\ a.pg = b.pg /\ a.c = b.c /\ ~Off(a.x, b.x) /\ ~Off(a.y, b.y) /\ ~Off(a.w, b.w) /\ ~Off(a.h, b.h)
                  /\ (Pdf \/ a.sec = b.sec)
Cover(a, b) == /\ a.pg = b.pg
               /\ Max2(a.x, b.x) + CTol < Min2(a.x + a.w, b.x + b.w)
               /\ Max2(a.y, b.y) + CTol < Min2(a.y + a.h, b.y + b.h)
Identity == Tup([i \in 1..Len(m.R) |-> i])
RPlaces ==
  FoldLeft(LAMBDA acc, i :
     IF ~acc.ok THEN acc
     ELSE LET js == {j \in acc.free : SameRect(m.R[i], Obs.R[j])}
          IN IF js = {} THEN [acc EXCEPT !.ok = FALSE]
             ELSE [acc EXCEPT !.pos = Append(@, LMin(js)), !.free = @ \ {LMin(js)}],
     [ok |-> TRUE, pos |-> <<>>, free |-> 1..Len(Obs.R)], Identity)
RPos ==
  IF Len(m.R) # Len(Obs.R) \/ (\A i \in 1..Len(m.R) : SameRect(m.R[i], Obs.R[i])) THEN Identity
  ELSE LET p == RPlaces
       IN IF p.ok /\ (\A i, j \in 1..Len(m.R) : i < j /\ p.pos[i] > p.pos[j] => ~Cover(m.R[i], m.R[j])) THEN p.pos ELSE Identity

TextDiff(e, o) ==
  LET rp == RPos
      k == Agree(e, o)
      I == 1..k
      J == {i \in 1..(k - 1) : e[i].el = e[i + 1].el /\ e[i].sec = e[i + 1].sec}
  IN If(k < Max2(Len(e), Len(o)), "words")
     \cup If(\E i \in I : e[i].pg # o[i].pg, "tpg")
     \cup If(\E i \in I : ~e[i].np /\ Off(e[i].x, o[i].x), "tx")
     \cup If(\E i \in I : Off(e[i].y, o[i].y), "ty")
     \cup If(\E i \in I : e[i].f # o[i].f, "tfont")
     \cup If(\E i \in I : e[i].c # o[i].c, "tcol")
     \cup If(\E i \in I : e[i].rid > 0 /\ (IF e[i].rid > Len(rp) THEN e[i].rid ELSE rp[e[i].rid]) > o[i].n, "tback")
     \* lines: the distances between consecutive words of an element
     \cup If(\E i \in J : e[i].pg = e[i + 1].pg /\ Off(e[i + 1].y - e[i].y, o[i + 1].y - o[i].y), "lines")

\* the words of the document in order, hyphenated ones put together again
Source(e) ==
  LET idx == SelectSeq([i \in 1..Len(e) |-> i], LAMBDA i : e[i].hy # "b" \/ i = 1 \/ e[i - 1].hy # "a")
  IN Tup([j \in 1..Len(idx) |->
        LET i == idx[j] IN
        [s |-> IF e[i].hy = "a" /\ i < Len(e) THEN SubSeq(e[i].s, 1, Len(e[i].s) - 1) \o e[i + 1].s ELSE e[i].s,
         blk |-> e[i].blk]])
Joined(e, o) ==
  LET src == Source(e)
      step(a, k) ==
        IF ~a.ok THEN a
        ELSE IF a.i > Len(src) THEN [a EXCEPT !.ok = FALSE]
        ELSE LET tgt == IF a.rem = "" THEN src[a.i].s ELSE a.rem
                 s   == o[k].s
                 l   == Len(s)
             IN IF s = tgt THEN [i |-> a.i + 1, rem |-> "", ok |-> TRUE]
                ELSE IF /\ src[a.i].blk /\ l > 1 /\ CharAt(s, l) = "-"
                        /\ l - 1 < Len(tgt) /\ SubSeq(tgt, 1, l - 1) = SubSeq(s, 1, l - 1)
                        /\ (k = Len(o) \/ o[k + 1].pg # o[k].pg \/ Off(o[k + 1].y, o[k].y) \/ o[k + 1].x <= o[k].x)
                THEN [a EXCEPT !.rem = SubSeq(tgt, l, Len(tgt))]
                ELSE [a EXCEPT !.ok = FALSE]
      fin == FoldLeft(step, [i |-> 1, rem |-> "", ok |-> TRUE], [k \in 1..Len(o) |-> k])
  IN fin.ok /\ fin.rem = "" /\ fin.i = Len(src) + 1

RectDiff(e, o) ==
  IF RPos # Identity THEN {} ELSE
  LET I == 1..Min2(Len(e), Len(o))
  IN If(Len(e) # Len(o), "rcount")
     \cup If(\E i \in I : e[i].pg # o[i].pg, "rpg")
     \cup If(\E i \in I : Off(e[i].x, o[i].x), "rx")
     \cup If(\E i \in I : Off(e[i].y, o[i].y), "ry")
     \cup If(\E i \in I : Off(e[i].w, o[i].w), "rw")
     \cup If(\E i \in I : Off(e[i].h, o[i].h), "rh")
     \cup If(\E i \in I : e[i].c # o[i].c, "rcol")

\* segments are compared as multisets: same number and each has a counterpart
NormSeg(s) == IF s.y1 < s.y0 \/ (s.y1 = s.y0 /\ s.x1 < s.x0)
              THEN [s EXCEPT !.x0 = s.x1, !.y0 = s.y1, !.x1 = s.x0, !.y1 = s.y0] ELSE s
SameSeg(a, b) == /\ a.pg = b.pg /\ ~Off(a.x0, b.x0) /\ ~Off(a.y0, b.y0) /\ ~Off(a.x1, b.x1) /\ ~Off(a.y1, b.y1)
                 /\ ~Off(a.lw, b.lw) /\ a.c = b.c
SegDiff(e0, o) ==
  LET e == Tup([i \in 1..Len(e0) |-> NormSeg(e0[i])])
  IN If(\/ Len(e) # Len(o)
        \/ \E i \in 1..Len(e) : ~ (SameSeg(e[i], o[i]) \/ \E j \in 1..Len(o) : SameSeg(e[i], o[j]))
        \/ \E j \in 1..Len(o) : ~ (SameSeg(e[j], o[j]) \/ \E i \in 1..Len(e) : SameSeg(e[i], o[j])), "seg")

ImgOff(a, b) == Abs(a - b) > CTol + 5 + Abs(a) \div 2000
ImgDiff(e, o) ==
  LET I == 1..Min2(Len(e), Len(o))
  IN If(Len(e) # Len(o) \/ (\E i \in I : e[i].src # o[i].src), "icount")
     \cup If(\E i \in I : e[i].pg # o[i].pg \/ ImgOff(e[i].x, o[i].x) \/ ImgOff(e[i].y, o[i].y), "ipos")
     \cup If(\E i \in I : ImgOff(e[i].w, o[i].w) \/ ImgOff(e[i].h, o[i].h), "isize")

Bodies(S) == TextDiff(ET(S), OT(S)) \cup RectDiff(InSec(m.R, S), InSec(Obs.R, S))
             \cup SegDiff(InSec(m.L, S), InSec(Obs.L, S)) \cup ImgDiff(InSec(m.I, S), InSec(Obs.I, S))

SizeDiff == If(Pdf /\ \E i \in 1..Len(Obs.sizes) : Off(Obs.sizes[i][1], G.w) \/ Off(Obs.sizes[i][2], G.h), "size")

\* text in a font that does not exist: processing has to fail
NoFont == Pdf /\ \E i \in 1..Len(m.T) : ~KnownFont(m.T[i].f)
Diff ==
  IF NoFont THEN If(Obs.err = "" /\ Obs.fault = "", "nofont") \cup If(Obs.fault # "" \/ Obs.load # "", "fault")
  ELSE IF Obs.fault # "" \/ Obs.err # "" \/ Obs.load # "" THEN {"fault"}
  ELSE Bodies({"B"}) \cup If(~Joined(ET({"B"}), OT({"B"})), "join") \cup If(Obs.pages # m.E.pg, "pages") \cup SizeDiff
       \cup {"hf" \o a : a \in (Bodies({"H"}) \cup Bodies({"F"}))}

Geometric == {"tpg", "tx", "ty", "lines", "rcount", "rpg", "rx", "ry", "rw", "rh", "seg", "icount", "ipos", "isize", "pages"}
Colours == {"tfont", "tcol", "rcol", "seg"}
HFs == {"hf" \o a : a \in Geometric \cup Colours \cup {"words"}}
Aspects ==
  {"fault"} \cup
  CASE Prop = "C01" -> {"join"}
    [] Prop = "C02" -> {"words", "lines", "ty"}
    [] Prop = "C03" -> {"tx"}
    [] Prop = "C05" -> {"rcount", "rx", "ry", "rw", "rh", "rcol", "seg", "tx", "ty", "tfont", "tcol", "tback",
                        "hfrcount", "hfrx", "hfry", "hfrw", "hfrh", "hfrcol", "hfseg", "hftx", "hfty", "hftfont", "hftcol"}
    [] Prop = "C06" -> {"pages", "rpg", "tpg", "ry"}
    [] Prop = "C07" -> {"rcount", "rx", "rw", "rh", "ry"}
    [] Prop = "C08" -> {"rcount", "rx", "rw"}
    [] Prop = "C09" -> {"rcount", "ry", "rh", "ty"}
    [] Prop = "C10" -> {"rcount", "rpg", "ry", "pages", "words", "tpg", "hfwords"}
    [] Prop = "C12" -> Colours \cup {"lines", "ty", "rw", "rh"} \cup HFs
    [] Prop = "C13" -> {"pages", "tpg", "ty", "tx", "rpg", "ry", "words"} \cup HFs
    [] Prop = "C16" -> {"icount", "ipos", "isize", "pages", "words", "tx", "ty", "tpg", "rcount", "ry", "hficount", "hfipos", "hfisize"}
    [] Prop = "C19" -> {"pages"}
    [] Prop = "C22" -> {"tfont", "tcol", "nofont"}
    [] Prop = "C23" -> Geometric \cup {"words"}
    [] OTHER -> Geometric \cup Colours \cup HFs \cup {"words", "join", "tback", "size"}

Conforms == Done => m.amb \/ Diff \cap Aspects = {}
\* one line per document for the caller
Report == Done => PrintT("VERDICT " \o ToJson([id |-> Doc.id, amb |-> m.amb, steps |-> n,
                                              bad |-> Diff \cap Aspects, diff |-> Diff]))
=============================================================================

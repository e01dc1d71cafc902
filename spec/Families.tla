------------------------------ MODULE Families ------------------------------
(* Families of small documents, each explored exhaustively: the environment  *)
(* composes a document out of a family's parts, TLC enumerates all of them,  *)
(* and every one is run through the layout machine and the code.             *)
(* Lengths are in 1/1000 mm; a character of the default font is 3 mm wide,   *)
(* 4.5 mm high.                                                              *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils
CONSTANTS F, N
VARIABLES body, hdr, ftr, more        \* more: what may still be added
\* TLC evaluates a function constructor anew at every application
Tup2(f) == f \o <<>>
vars == <<body, hdr, ftr, more>>

D(k, v) == [k |-> k, v |-> v]
Opt(cond, k, v) == IF cond THEN <<D(k, v)>> ELSE <<>>
T(ws) == [k |-> "t", w |-> ws, cp |-> FALSE]
P(ds, ws) == [k |-> "p", c |-> <<>>, d |-> ds, w |-> ws, cp |-> FALSE]
Br == [k |-> "br"]
TextC(cs, ds, is) == [k |-> "text", c |-> cs, d |-> ds, is |-> is]
BoxC(cs, ds, is) == [k |-> "box", c |-> cs, d |-> ds, is |-> is]
Text(ds, is) == TextC(<<>>, ds, is)
Box(ds, is) == BoxC(<<>>, ds, is)
CellC(cs, ds, c, r, is) == [c |-> cs, d |-> ds, cs |-> c, rs |-> r, is |-> is]
Cell(ds, c, r, is) == CellC(<<>>, ds, c, r, is)
RowC(cs, cells) == [c |-> cs, d |-> <<>>, cells |-> cells]
Row(cells) == RowC(<<>>, cells)
TableC(cs, ds, rep, rows) == [k |-> "table", c |-> cs, d |-> ds, rep |-> rep, rows |-> rows]
Table(ds, rep, rows) == TableC(<<>>, ds, rep, rows)
SetX(v) == [k |-> "setx", v |-> v]
SetY(v) == [k |-> "sety", v |-> v]
LF(v) == [k |-> "lf", v |-> v]
FontI(ds) == [k |-> "font", c |-> <<>>, d |-> ds]
NewPage == [k |-> "newpage"]
GridI == [k |-> "grid"]
Img(ds, src, pw, ph, ok) == [k |-> "image", c |-> <<>>, d |-> ds, pw |-> pw, ph |-> ph, src |-> src, ok |-> ok,
                             px |-> IF ok THEN ToString(pw) \o "x" \o ToString(ph) ELSE "0x0"]
Seqs(S, k) == UNION {[1..j -> S] : j \in 0..k}
Letters == <<"a", "b", "c", "d", "e", "f", "g", "h">>
RECURSIVE Times(_, _)
Times(s, k) == IF k = 0 THEN "" ELSE s \o Times(s, k - 1)
Probe == Text(<<>>, <<T(<<"zz">>)>>)
Geo(w, h) == [w |-> 12000 + 2000 + w, h |-> h + 9000, l |-> 5000, t |-> 4000, r |-> 7000, b |-> 5000]

-----------------------------------------------------------------------------
(* One by one. A family: geometry, classes, patterns, headers, footers, and  *)
(* bodies: complete ones, or parts of which up to N follow each other.       *)
\* lines (C01, C02, C03): every sequence of up to N tokens in every alignment and three widths
LineTokens == {1, 2, 4, 7, 0}          \* lengths of words, 0 a line break
LineIs(tk) == Tup2([i \in 1..Len(tk) |->
  IF tk[i] = 0 THEN Br ELSE IF i % 2 = 0 THEN P(<<>>, <<Times(Letters[i], tk[i])>>) ELSE T(<<Times(Letters[i], tk[i])>>)])
LineBodies == {<<Text(<<D("ha", a), D("w", w)>>, LineIs(tk)), Probe>> :
                 a \in {"left", "right", "center", "block"}, w \in {15000, 21000, 30000}, tk \in Seqs(LineTokens, N)}

\* boxes (C05, C06): a box at every height of the page
BoxBodies ==
  {<<SetY(y), Box(Opt(h > 0, "h", h) \o Opt(pad, "pad", <<1000, 2000, 3000, 4000>>) \o Opt(oy # 0, "oy", oy) \o Opt(ox > 0, "ox", ox)
                  \o Opt(w > 0, "w", w) \o Opt(b > 0, "bor", IF b = 1 THEN <<1000, 0, 0, 1000>> ELSE <<0, 1000, 2000, -1000>>) \o Opt(b = 2, "lw", 1000),
                  IF ws = 0 THEN <<>> ELSE <<T([i \in 1..ws |-> Times(Letters[i], 5)])>>), Probe>> :
     y \in {4000, 20000, 28000, 30000, 36000, 40000}, h \in {0, 4000, 14000}, pad \in BOOLEAN, oy \in {0, -2000, 4000}, ox \in {0, 2000},
     w \in {0, 20000}, b \in {0, 1, 2}, ws \in {0, 1, 3}}

\* rows (C10): up to N rows of three heights, repeated rows, a row span, three places to start at
RowBodies ==
  {<<SetY(y), Table(<<>>, rep, [r \in 1..Len(hs) |->
        Row(<<Cell(<<D("h", hs[r])>>, 1, IF r = sp THEN 2 ELSE 1, <<T(<<Letters[r]>>)>>), Cell(<<D("h", hs[r])>>, 1, 1, <<>>)>>)]), Probe>> :
     y \in {4000, 14000, 26000}, rep \in 0..3, sp \in 0..2, hs \in Seqs({4000, 8000, 20000}, N)}

\* spans (C07): two rows of up to N cells with spans up to 3, or three rows of up to two with spans up to 2
SpanCells(m) == {<<a, b>> : a \in 1..m, b \in 1..m}
SpanTable(rows) == Table(<<>>, 0, Tup2([r \in 1..Len(rows) |-> Row(Tup2([c \in 1..Len(rows[r]) |-> Cell(<<D("h", 4000)>>, rows[r][c][1], rows[r][c][2], <<>>)]))]))
SpanBodies ==
  {<<SpanTable(<<a, b>>)>> : a \in Seqs(SpanCells(3), 2), b \in Seqs(SpanCells(3), 2)}
  \cup {<<SpanTable(<<a, b, c>>)>> : a \in Seqs(SpanCells(2), 2), b \in Seqs(SpanCells(2), 2), c \in Seqs(SpanCells(2), 2)}

\* columns (C08): column widths and spans in the first row, others in the second, three widths of the table
ColCells == {<<a, b>> : a \in {0, 6000, 18000}, b \in 1..2}
ColRow(cells) == Row(Tup2([i \in 1..Len(cells) |-> Cell(<<D("h", 4000)>> \o Opt(cells[i][1] > 0, "cw", cells[i][1]), cells[i][2], 1, <<>>)]))
ColBodies ==
  {<<SetX(x), Table(Opt(w > 0, "w", w), 0, <<ColRow(a), ColRow(b)>>)>> :
     x \in {5000, 9000}, w \in {0, 60000, 90000}, a \in Seqs(ColCells, 3),
     b \in {<<>>, <<<<0, 1>>, <<0, 1>>, <<0, 1>>>>, <<<<0, 1>>, <<12000, 1>>>>, <<<<6000, 2>>, <<0, 1>>>>}}

\* cells (C09): content, alignment, height, padding and row span of one cell next to others
CellIs(c) == CASE c = "none" -> <<>> [] c = "word" -> <<T(<<"ab">>)>> [] c = "lines" -> <<T(<<"ab">>), Br, P(<<D("pt", 160)>>, <<"cd">>)>>
               [] c = "box" -> <<Box(<<D("h", 6000), D("w", 9000)>>, <<T(<<"x">>)>>)>> [] c = "both" -> <<T(<<"ab">>), Box(<<D("pad", <<1000, 1000, 1000, 1000>>)>>, <<T(<<"x">>)>>)>>
CellBodies ==
  {<<Table(<<>>, 0, <<Row(<<Cell(<<D("va", va)>> \o Opt(h > 0, "h", h) \o Opt(pad, "pad", <<500, 1000, 1500, 2000>>), 1, rs, CellIs(c)),
                           Cell(<<D("h", 9000)>>, 1, 1, <<>>)>>),
                      Row(IF rs = 2 /\ o = 3 THEN <<>> ELSE <<Cell(Opt(o = 1, "h", 20000), 1, 1, IF o = 2 THEN <<T(<<"e">>)>> ELSE <<>>)>>)>>), Probe>> :
     va \in {"top", "middle", "bottom", "odd"}, h \in {0, 3000, 24000}, pad \in BOOLEAN, rs \in {1, 2, 3}, c \in {"none", "word", "lines", "box", "both"}, o \in 0..3}

\* cascade (C11): classes with and without selectors on the table, its rows and cells; on boxes, texts and pieces
CascCls == <<[n |-> "ca", d |-> <<D("pt", 60), D("bg", "ff0000")>>, s |-> <<[n |-> "first-row", d |-> <<D("tx", "00ff00")>>], [n |-> "last-cell", d |-> <<D("fwt", "bold")>>]>>],
             [n |-> "cb", d |-> <<D("fst", "italic"), D("pt", 160), D("tx", "0000ff")>>, s |-> <<[n |-> "last-row", d |-> <<D("pt", 40)>>], [n |-> "first-cell", d |-> <<D("bg", "123456")>>]>>]>>
ClassLists == {<<>>, <<"ca">>, <<"cb">>, <<"ca", "cb">>, <<"cb", "ca">>, <<"no", "cb">>}
Few == {<<>>, <<"ca">>, <<"cb", "ca">>}
CascBodies ==
  {<<TableC(t, <<>>, 0, Tup2([k \in 1..nr |-> RowC(r, Tup2([j \in 1..nc |-> CellC(c, Opt(i, "pt", 80), 1, 1, <<T(<<"x">>), P(Opt(i, "fdc", "underline"), <<"y">>)>>)]))]))>> :
     t \in Few, r \in ClassLists, c \in ClassLists, nr \in 1..3, nc \in 1..3, i \in BOOLEAN}
  \cup {<<FontI(f), BoxC(b, Opt(i, "pt", 80), <<T(<<"x">>), [k |-> "p", c |-> q, d |-> Opt(i, "fwt", "bold"), w |-> <<"y">>, cp |-> FALSE]>>),
          TextC(q, Opt(i, "tx", "808080"), <<T(<<"x">>), [k |-> "p", c |-> b, d |-> <<>>, w |-> <<"y">>, cp |-> FALSE]>>), Probe>> :
          f \in {<<>>, <<D("pt", 100), D("fam", "Courier")>>}, b \in ClassLists, q \in ClassLists, i \in BOOLEAN}

\* leaks (C12): every sequence of up to N styled elements, probes behind each
Styled == <<D("pt", 60), D("fam", "Courier"), D("tx", "ff0000"), D("bg", "00ff00"), D("fg", "0000ff"), D("lw", 1000), D("bor", <<1000, 1000, 1000, 1000>>), D("ls", 3000),
            D("pad", <<1000, 1000, 1000, 1000>>), D("ha", "center")>>
LeakParts == {<<FontI(<<D("pt", 80)>>)>>, <<FontI(<<D("fwt", "bold"), D("fam", "Times"), D("tx", "00ff00")>>)>>, <<Text(Styled, <<T(<<"x">>)>>)>>,
              <<Box(Styled, <<T(<<"x">>), P(<<D("fst", "italic")>>, <<"y">>)>>)>>, <<Table(Styled, 0, <<Row(<<Cell(Styled, 1, 1, <<T(<<"x">>), Box(Styled, <<T(<<"b">>)>>)>>)>>)>>)>>,
              <<Probe>>, <<Box(<<>>, <<T(<<"zz">>)>>)>>, <<NewPage>>, <<LF(1000)>>}
LeakHF == {<<>>, <<FontI(<<D("pt", 160)>>), Text(<<>>, <<T(<<"h">>)>>)>>, <<Box(Styled, <<T(<<"h">>)>>)>>}

\* headers and footers (C13)
HFParts == {<<>>, <<Text(<<D("ha", "right")>>, <<[k |-> "t", w |-> <<"{cp}">>, cp |-> TRUE]>>)>>, <<SetX(20000), LF(2000)>>, <<Box(<<D("h", 60000)>>, <<>>)>>,
            <<Table(<<>>, 1, <<Row(<<Cell(<<D("h", 30000)>>, 1, 1, <<>>)>>), Row(<<Cell(<<D("h", 30000)>>, 1, 1, <<T(<<"t">>)>>)>>)>>)>>,
            <<NewPage, FontI(<<D("pt", 160)>>), Probe>>, <<Text(<<>>, <<T(<<"a">>), Br, T(<<"b">>), Br, T(<<"c">>), Br, T(<<"d">>), Br, T(<<"e">>), Br, T(<<"f">>), Br, T(<<"g">>)>>)>>}
HFFooters == {<<SetX(6000), SetY(35000)>> \o p : p \in HFParts} \cup {<<>>}
HFBodies == {<<Probe>>, <<NewPage>>, <<Box(<<D("h", 16000)>>, <<T(<<"x">>)>>)>>, <<Table(<<>>, 0, <<Row(<<Cell(<<D("h", 15000)>>, 1, 1, <<T(<<"x">>)>>)>>)>>)>>,
             <<Text(<<>>, <<T(<<"a">>), Br, T(<<"b">>), Br, T(<<"c">>), Br, T(<<"d">>)>>)>>}

\* cursor (C23): every sequence of up to N instructions
CursorParts == {<<LF(1000)>>, <<LF(2500)>>, <<SetX(20000)>>, <<SetX(-15000)>>, <<SetY(12000)>>, <<SetY(-9000)>>, <<Probe>>,
                <<Text(<<D("ha", "right"), D("ls", 1000), D("w", 20000)>>, <<T(<<"aaa", "bbb", "ccc">>)>>)>>,
                <<Box(<<D("w", 12000), D("oy", 1000)>>, <<T(<<"x">>)>>)>>, <<Table(<<D("w", 20000)>>, 0, <<Row(<<Cell(<<>>, 1, 1, <<T(<<"x">>)>>)>>)>>)>>,
                <<Img(<<D("w", 8000)>>, "a.png", 40, 20, TRUE)>>, <<NewPage>>, <<GridI>>, <<FontI(<<D("pt", 80)>>)>>}

\* images (C16)
Images == {<<"a.png", 40, 20, TRUE>>, <<"b.png", 30, 90, TRUE>>, <<"broken.png", 1, 1, FALSE>>}
ImgOf(s, w, h, ox, oy) == Img(Opt(w > 0, "w", w) \o Opt(h > 0, "h", h) \o Opt(ox > 0, "ox", ox) \o Opt(oy > 0, "oy", oy), s[1], s[2], s[3], s[4])
ImageBodies ==
  {<<SetY(y), ImgOf(s, w, h, ox, oy), Probe>> : y \in {4000, 30000}, s \in Images, w \in {0, 10000, 100000}, h \in {0, 8000, 100000}, ox \in {0, 5000}, oy \in {0, 3000}}
  \cup {<<Table(<<>>, 0, <<Row(<<Cell(<<D("h", ch), D("va", va)>> \o Opt(pad, "pad", <<1000, 500, 1500, 2000>>), 1, 1, <<ImgOf(s, w, h, ox, 0)>>), Cell(<<>>, 1, 1, <<>>)>>)>>), Probe>> :
          ch \in {6000, 20000}, va \in {"top", "bottom"}, pad \in BOOLEAN, s \in Images, w \in {0, 10000, 100000}, h \in {0, 8000, 100000}, ox \in {0, 5000}}

\* pages (C17), for the PDF engine: formats, orientations, margins
Formats == {<<"a3", 297000, 420000>>, <<"a4", 210002, 297002>>, <<"a5", 148500, 210002>>, <<"letter", 215900, 279400>>, <<"legal", 215900, 355600>>, <<"weird", 210002, 297002>>, <<"", 210002, 297002>>}
PageBodies == {<<Box(<<D("bor", <<1000, 1000, 1000, 1000>>), D("h", 20000)>>, <<T(<<"x">>)>>), SetX(-50000), SetY(-70000), Text(<<>>, <<T(<<"aa">>), Br, T(<<"bb">>), Br, T(<<"cc">>), Br, T(<<"dd">>)>>)>>,
               <<SetY(-45000), Text(<<D("ha", "right")>>, <<T(<<"aa">>), Br, T(<<"bb">>), Br, T(<<"cc">>), Br, T(<<"dd">>), Br, T(<<"ee">>), Br, T(<<"ff">>)>>), Probe>>}

-----------------------------------------------------------------------------
EnvF == IOEnv.FAM
EnvN == CHOOSE k \in 0..9 : ToString(k) = IOEnv.N
Whole == CASE F = "lines" -> LineBodies [] F = "boxes" -> BoxBodies [] F = "rows" -> RowBodies [] F = "spans" -> SpanBodies [] F = "columns" -> ColBodies
           [] F = "cells" -> CellBodies [] F = "cascade" -> CascBodies [] F = "images" -> ImageBodies [] F = "pages" -> PageBodies [] OTHER -> {<<>>}
Parts == CASE F = "leaks" -> LeakParts [] F = "hf" -> HFBodies [] F = "cursor" -> CursorParts [] OTHER -> {}
Hdrs == CASE F = "leaks" -> LeakHF [] F = "hf" -> HFParts [] OTHER -> {<<>>}
Ftrs == CASE F = "leaks" -> {<<SetX(6000), SetY(4000)>> \o p : p \in LeakHF} [] F = "hf" -> HFFooters [] OTHER -> {<<>>}
Geos == CASE F = "boxes" -> {[g |-> Geo(60000, 40000)]} [] F = "rows" -> {[g |-> Geo(60000, 32000)]} [] F = "hf" -> {[g |-> Geo(45000, 40000)]}
          [] F = "cursor" -> {[g |-> Geo(45000, 40000)]} [] F \in {"spans", "columns"} -> {[g |-> Geo(72000, 60000)]} [] F = "images" -> {[g |-> Geo(60000, 50000)]}
          [] F = "pages" -> {[g |-> [w |-> IF o = "landscape" THEN f[3] ELSE f[2], h |-> IF o = "landscape" THEN f[2] ELSE f[3],
                                     l |-> mg[1], t |-> mg[2], r |-> mg[3], b |-> mg[4]], fmt |-> f[1], ori |-> o] :
                               f \in Formats, o \in {"portrait", "landscape", "other"}, mg \in {<<0, 0, 0, 0>>, <<20000, 10000, 15000, 25000>>, <<35000, 5000, 1000, 40000>>}}
          [] OTHER -> {[g |-> Geo(50000, 50000)]}
Cls == IF F = "cascade" THEN CascCls ELSE <<>>
Pats == IF F = "lines" THEN [i \in 1..4 |-> [l |-> Letters[i] \o Letters[i], w |-> <<0, 1, 0>>]] ELSE <<>>

Init == body \in Whole /\ hdr \in Hdrs /\ ftr \in Ftrs /\ more = IF Parts = {} THEN 0 ELSE N
Add == more > 0 /\ \E p \in Parts : body' = body \o p /\ more' = more - 1 /\ UNCHANGED <<hdr, ftr>>
Spec == Init /\ [][Add]_vars
Base == [mode |-> IF F = "pages" THEN "pdf" ELSE "fake", cls |-> Cls, hdr |-> hdr, ftr |-> ftr, pats |-> Pats,
         body |-> body \o (IF Parts = {} THEN <<>> ELSE <<Probe>>)]
Report == \A x \in Geos : PrintT("DOC " \o ToJson(Base @@ x))
=============================================================================

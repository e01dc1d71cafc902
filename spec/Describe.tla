------------------------------ MODULE Describe ------------------------------
(* The description of a loaded document (C21): the document is walked in     *)
(* order, each element yields one item                                      *)
(*   [d |-> depth, n |-> name, v |-> value, df |-> set of style changes]    *)
(* A style change is [p |-> path, o |-> original, m |-> modified].          *)
EXTENDS Load

\* the style described against: nothing is set
Zero == [fam |-> <<"">>, pt |-> <<"0">>, fst |-> <<"">>, fwt |-> <<"">>, fdc |-> <<"">>,
         bor |-> <<"0", "0", "0", "0">>, pad |-> <<"0", "0", "0", "0">>, mar |-> <<"0", "0", "0", "0">>,
         w |-> <<"0">>, h |-> <<"0">>, ls |-> <<"0">>, ox |-> <<"0">>, oy |-> <<"0">>, cw |-> <<"0">>,
         ha |-> <<"">>, va |-> <<"">>, fg |-> <<"0", "0", "0">>, tx |-> <<"0", "0", "0">>, bg |-> <<"0", "0", "0">>, lw |-> <<"0">>]
Four4(n) == <<n \o ":Left", n \o ":Top", n \o ":Right", n \o ":Bottom">>
Rgb3(n) == <<n \o ":R", n \o ":G", n \o ":B">>
Paths == [fam |-> <<"Family">>, pt |-> <<"PointSize">>, fst |-> <<"Style">>, fwt |-> <<"Weight">>, fdc |-> <<"Decoration">>,
          bor |-> Four4("Border"), pad |-> Four4("Padding"), mar |-> Four4("Margin"),
          w |-> <<"Width">>, h |-> <<"Height">>, ls |-> <<"LineSpacing">>, ox |-> <<"OffsetX">>, oy |-> <<"OffsetY">>,
          cw |-> <<"ColumnWidth">>, ha |-> <<"HAlign">>, va |-> <<"VAlign">>,
          fg |-> Rgb3("Foreground"), tx |-> Rgb3("Text"), bg |-> Rgb3("Background"), lw |-> <<"LineWidth">>]
HexVal(c) == (CHOOSE k \in 1..16 : CharAt(HexDigits, k) = c) - 1
Rgb(h) == Tup([k \in 1..3 |-> ToString(16 * HexVal(CharAt(h, 2 * k - 1)) + HexVal(CharAt(h, 2 * k)))])
\* a declared value, part by part
Parts(at, v) == IF at \in {"fg", "tx", "bg"} THEN Rgb(v[1]) ELSE v

\* what classes and inline style (the attributes that differ from Filled) make of the zero style
Over(sty, out) == [at \in DOMAIN sty |-> IF at \in DOMAIN out THEN Parts(at, out[at]) ELSE sty[at]]
Inline(st) == [at \in {x \in DOMAIN st : st[x] # Filled[x]} |-> st[at]]
Effective(cs, nd) ==
  Over(FoldLeft(LAMBDA s, c : IF c \in DOMAIN cs THEN Over(s, cs[c]) ELSE s, Zero, nd.cl), Inline(nd.st))
Changes(cs, nd) ==
  LET e == Effective(cs, nd)
  IN UNION {{[p |-> "styles:" \o Paths[at][k], o |-> Zero[at][k], m |-> e[at][k]] :
             k \in {j \in 1..Len(e[at]) : e[at][j] # Zero[at][j]}} : at \in DOMAIN e}

\* texts are shown without line ends and double blanks
TrimBlanks(s) == LET ks == {k \in 1..Len(s) : CharAt(s, k) # " "}
                 IN IF ks = {} THEN "" ELSE SubSeq(s, CHOOSE k \in ks : \A q \in ks : k <= q, CHOOSE k \in ks : \A q \in ks : k >= q)
Shown(s) == TrimBlanks(ReplaceStr(ReplaceStr(s, "\n", ""), "  ", ""))

Named == [font |-> "font", lf |-> "line-feed", setx |-> "setx", sety |-> "sety", box |-> "box", text |-> "text", p |-> "paragraph",
          br |-> "line-break", newpage |-> "page-break", image |-> "image", table |-> "table", tr |-> "table-row", grid |-> "grid",
          gr |-> "grid-row", part |-> "grid-part"]
RECURSIVE SplitStr(_, _)
SplitStr(s, p) == LET i == FindStr(p, s, 1)
                  IN IF i = 0 THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o SplitStr(SubSeq(s, i + Len(p), Len(s)), p)
Item(d, n, v, df) == [d |-> d, n |-> n, v |-> v, df |-> df]
\* the items of one node; its content follows
ItemsOf(cs, d, nd) ==
  CASE nd.n = "#"  -> LET ps == SplitStr(nd.v, Sep) IN Tup([k \in 1..Len(ps) |-> Item(d, "text-block", Shown(ps[k]), {})])
    [] nd.n = "td" -> LET sp == Split(nd.v, ",") IN <<Item(d, "table-cell colspan=" \o sp[1] \o " rowspan=" \o sp[2], "", Changes(cs, nd))>>
    [] nd.n = "p"  -> <<Item(d, Named[nd.n], Shown(nd.v), Changes(cs, nd))>>
    [] nd.n = "gr" -> <<Item(d, Named[nd.n], ReplaceStr(nd.v, "|", " "), Changes(cs, nd))>>
    [] nd.n \in {"lf", "setx", "sety", "image", "part"} -> <<Item(d, Named[nd.n], nd.v, Changes(cs, nd))>>
    [] OTHER -> <<Item(d, Named[nd.n], "", Changes(cs, nd))>>

Plain3(d, ns, vs) == Tup([k \in 1..Len(ns) |-> Item(d, ns[k], vs[k], {})])
Heading(doc) == <<Item(0, "meta", "", {})>> \o Plain3(1, <<"author", "creator", "subject">>, doc.meta)
              \o <<Item(0, "page", "", {})>> \o Plain3(1, <<"orientation", "format", "margins">>, <<doc.page[1], doc.page[2], "">>)
              \o Plain3(2, <<"left", "top", "right", "bottom">>, SubSeq(doc.page, 3, 6))
=============================================================================

-------------------------------- MODULE Load --------------------------------
(* Loading a document (C15): a push-down automaton over XML tokens           *)
(*   [k |-> "s", n |-> name, a |-> << <<attribute, value>>, ... >>]  start tag *)
(*   [k |-> "c", s |-> text]   character data     [k |-> "e", n |-> name] end *)
(*   [k |-> "x"]  something that is not XML                                  *)
(* The stack holds the elements being read, innermost first.                *)
EXTENDS Decode
\* put between the pieces of a text that unknown elements divide
CONSTANT Sep

Kinds == [n \in {"box", "text"} |-> "iss"] @@ [n \in {"font", "lf", "setx", "sety", "br", "newpage"} |-> "void"]
      @@ [n \in {"p", "image"} |-> "cdata"] @@ [n \in {"table"} |-> "table"] @@ [n \in {"tr"} |-> "tr"] @@ [n \in {"td"} |-> "td"]
      @@ [n \in {"grid"} |-> "grid"] @@ [n \in {"gr"} |-> "gr"] @@ [n \in {"part"} |-> "part"]
Instr == DOMAIN Kinds
NoStyle == {"lf", "setx", "sety", "br", "newpage"}

Node(n, v, cl, out, is) == [n |-> n, v |-> v, cl |-> cl, st |-> Applied(out), is |-> is]
AttrOf(a, n, dflt) == LET h == SelectSeq(a, LAMBDA x : x[1] = n) IN IF h = <<>> THEN dflt ELSE h[Len(h)][2]
HasAttr(a, n) == \E i \in 1..Len(a) : a[i][1] = n
Words(s) == SelectSeq(Split(ReplaceStr(ReplaceStr(s, "\n", " "), "\t", " "), " "), LAMBDA x : x # "")

Frame(k, n, a) == [k |-> k, n |-> n, a |-> a, v |-> "", is |-> <<>>]
EmptyDoc == [meta |-> <<"", "", "">>, page |-> <<"", "", "0", "0", "0", "0">>, style |-> "", hdr |-> <<>>, ftr |-> <<>>, body |-> <<>>]
\* st: "read", "done" or "err"; odd: a style text that is not specified
L0 == [st |-> "read", stk |-> <<>>, doc |-> EmptyDoc, odd |-> FALSE]
Err(a) == [a EXCEPT !.st = "err"]
Push(a, f) == [a EXCEPT !.stk = <<f>> \o @]

\* the innermost element whose tags count
At(a) == CHOOSE i \in 1..Len(a.stk) : a.stk[i].k # "thru" /\ \A j \in 1..(i - 1) : a.stk[j].k = "thru"

\* what is inside which element
Child(f, n) ==
  CASE f.k = "doc" -> (CASE n = "meta" -> "meta" [] n = "page" -> "page" [] n = "style" -> "val"
                         [] n \in {"header", "footer", "body"} -> "iss" [] OTHER -> "skip")
    [] f.k = "meta" -> IF n \in {"author", "creator", "subject"} THEN "val" ELSE "skip"
    [] f.k = "page" -> IF n \in {"orientation", "format"} THEN "val" ELSE IF n = "margins" THEN "margins" ELSE "skip"
    [] f.k = "margins" -> IF n \in {"left", "top", "right", "bottom"} THEN "val" ELSE "skip"
    [] f.k \in {"iss", "table", "tr"} -> IF n \in Instr THEN Kinds[n] ELSE "error"
    [] f.k \in {"td", "grid", "part"} -> IF n \in Instr THEN Kinds[n] ELSE "thru"
    [] f.k = "gr" -> "thru"
    [] OTHER -> "skip"        \* void, cdata, val, skip
Start(a, t) ==
  IF a.stk = <<>> THEN IF t.n = "document" THEN Push(a, Frame("doc", t.n, t.a)) ELSE Err(a)
  ELSE LET c == Child(a.stk[At(a)], t.n) IN IF c = "error" THEN Err(a) ELSE Push(a, Frame(c, t.n, t.a))

Chars(a, t) ==
  IF a.stk = <<>> THEN a
  ELSE LET p == At(a)  f == a.stk[p] IN
  CASE f.k \in {"val", "cdata"} -> [a EXCEPT !.stk[p].v = @ \o t.s]
    [] f.k \in {"iss", "td", "part"} /\ t.s # "" ->
         [a EXCEPT !.stk[p].is = IF @ # <<>> /\ @[Len(@)].n = "#" THEN [@ EXCEPT ![Len(@)].v = @ \o Sep \o t.s]
                                 ELSE Append(@, Node("#", t.s, <<>>, <<>>, <<>>))]
    [] f.k = "gr" -> [a EXCEPT !.stk[p].v = @ \o t.s]
    [] OTHER -> a

\* a grid: all rows equally long, all parts for an area of them
GridOK(is) ==
  LET rows == SelectSeq(is, LAMBDA x : x.n = "gr")
      areas == UNION {Range(x.ar) : x \in Range(rows)}
  IN rows # <<>> /\ (\A i \in 1..Len(rows) : Len(rows[i].ar) = Len(rows[1].ar))
     /\ \A x \in Range(is) : x.n = "part" => x.v \in areas
NumAttr(a, n) == IF AttrOf(a, n, "") = "" THEN Yes(<<"0">>) ELSE Number(Trim(AttrOf(a, n, "")))
IntAttr(a, n) == IF HasAttr(a, n) THEN Integer(AttrOf(a, n, "")) ELSE Yes(<<"0">>)
RepOK(s) == s \in {ToString(k) : k \in 0..10}

\* the element f is complete: [ok, node]
Complete(f) ==
  LET styled == f.n \notin NoStyle
      de == IF styled /\ HasAttr(f.a, "style") THEN Declarations(AttrOf(f.a, "style", "")) ELSE DecInit
      cl == IF styled THEN Words(AttrOf(f.a, "class", "")) ELSE <<>>
      res(v, is) == [ok |-> ~de.err, odd |-> de.odd, node |-> Node(f.n, v, cl, de.out, is)]
      bad == [ok |-> FALSE, odd |-> de.odd, node |-> Node(f.n, "", cl, <<>>, <<>>)]
      num(n) == LET x == NumAttr(f.a, n) IN IF x.ok THEN res(x.v[1], <<>>) ELSE bad
  IN CASE f.n = "lf" -> num("lines") [] f.n = "setx" -> num("x") [] f.n = "sety" -> num("y")
       [] f.n \in {"p", "image"} -> res(f.v, <<>>)
       [] f.n \in {"font", "br", "newpage"} -> res("", <<>>)
       [] f.n = "table" -> LET x == IntAttr(f.a, "repeatheader") IN IF x.ok /\ RepOK(x.v[1]) THEN res(x.v[1], f.is) ELSE bad
       [] f.n = "td" -> LET x == IntAttr(f.a, "colspan")  y == IntAttr(f.a, "rowspan")
                        IN IF x.ok /\ y.ok THEN res(x.v[1] \o "," \o y.v[1], f.is) ELSE bad
       [] f.n = "gr" -> LET ar == IF f.v = "" THEN <<>> ELSE Split(f.v, " ")
                            r == res(ReplaceStr(f.v, " ", "|"), <<>>)
                        IN [r EXCEPT !.node = [x \in {"ar"} |-> ar] @@ @]
       [] f.n = "part" -> res(AttrOf(f.a, "area", ""), f.is)
       [] f.n = "grid" -> IF GridOK(f.is)
                          THEN res("", Tup([i \in 1..Len(f.is) |-> [x \in DOMAIN f.is[i] \ {"ar"} |-> f.is[i][x]]])) ELSE bad
       [] OTHER -> res("", f.is)

\* what an element keeps of the instructions in it
Keeps(f, n) == CASE f.k = "table" -> n = "tr" [] f.k = "tr" -> n = "td" [] f.k = "grid" -> n \in {"gr", "part"} [] OTHER -> TRUE
\* rows come before parts
AddTo(f, nd) ==
  IF ~Keeps(f, nd.n) THEN f
  ELSE IF f.k = "grid" /\ nd.n = "gr"
  THEN [f EXCEPT !.is = SelectSeq(@, LAMBDA x : x.n = "gr") \o <<nd>> \o SelectSeq(@, LAMBDA x : x.n = "part")]
  ELSE [f EXCEPT !.is = Append(@, IF nd.n = "gr" THEN [x \in DOMAIN nd \ {"ar"} |-> nd[x]] ELSE nd)]

MarginOf == [left |-> 3, top |-> 4, right |-> 5, bottom |-> 6]
MetaOf == [author |-> 1, creator |-> 2, subject |-> 3]
PageOf == [orientation |-> 1, format |-> 2]
End(a, t) ==
  IF a.stk = <<>> \/ a.stk[1].n # t.n THEN Err(a)
  ELSE LET f == a.stk[1]
           b == [a EXCEPT !.stk = Tail(@)]
           up == IF b.stk = <<>> THEN f ELSE b.stk[1]
  IN CASE f.k = "doc" -> LET cd == a.doc.style IN [b EXCEPT !.st = "done"]
       [] f.k \in {"skip", "thru", "meta", "page", "margins"} -> b
       [] f.k = "val" /\ f.n = "style" -> [b EXCEPT !.doc.style = f.v]
       [] f.k = "val" /\ up.k = "meta" -> [b EXCEPT !.doc.meta[MetaOf[f.n]] = f.v]
       [] f.k = "val" /\ up.k = "page" -> [b EXCEPT !.doc.page[PageOf[f.n]] = f.v]
       [] f.k = "val" -> LET x == IF f.v = "" THEN Yes(<<"0">>) ELSE Number(Trim(f.v))
                         IN IF x.ok THEN [b EXCEPT !.doc.page[MarginOf[f.n]] = x.v[1]] ELSE Err(a)
       [] f.k = "iss" /\ up.k = "doc" ->
            LET r == Complete(f) IN
            IF ~r.ok THEN [Err(a) EXCEPT !.odd = @ \/ r.odd]
            ELSE (CASE f.n = "header" -> [b EXCEPT !.doc.hdr = @ \o f.is, !.odd = @ \/ r.odd]
                    [] f.n = "footer" -> [b EXCEPT !.doc.ftr = @ \o f.is, !.odd = @ \/ r.odd]
                    [] OTHER -> [b EXCEPT !.doc.body = @ \o f.is, !.odd = @ \/ r.odd])
       [] OTHER -> LET r == Complete(f)
                       p == At(b)
                   IN IF ~r.ok THEN [Err(a) EXCEPT !.odd = @ \/ r.odd]
                      ELSE [b EXCEPT !.stk[p] = AddTo(@, r.node), !.odd = @ \/ r.odd]

Feed(a, t) ==
  IF a.st # "read" THEN a
  ELSE CASE t.k = "s" -> Start(a, t) [] t.k = "c" -> Chars(a, t) [] t.k = "e" -> End(a, t) [] OTHER -> Err(a)
\* the source ends
Eof(a) == IF a.st = "read" THEN Err(a) ELSE a

-----------------------------------------------------------------------------
(* Style blocks: the same decoder as a fold over class texts. [err, odd]     *)
RECURSIVE ClassesOf(_, _)
\* a = [cs, err, odd]; cs: class name -> declarations
ClassesOf(rest, a) ==
  LET o == IndexFrom(rest, "{", 1)
      cl == IndexFrom(rest, "}", o + 1)
      nm == Trim(Upto(rest, o - 1))
      co == IndexFrom(nm, ":", 1)
      body == Declarations(SubSeq(rest, o + 1, cl - 1))
      b == [a EXCEPT !.odd = @ \/ body.odd]
  IN IF o > Len(rest) THEN a
     ELSE IF nm = "" \/ cl > Len(rest) THEN [a EXCEPT !.err = TRUE]
     ELSE IF body.err THEN [b EXCEPT !.err = TRUE]
     ELSE IF co > 1 /\ co <= Len(nm)
     THEN (IF Upto(nm, co - 1) \in DOMAIN a.cs THEN ClassesOf(From(rest, cl + 1), b) ELSE [a EXCEPT !.err = TRUE])
     ELSE ClassesOf(From(rest, cl + 1), [b EXCEPT !.cs = [x \in {nm} |-> body.out] @@ @])
Classes(text) == ClassesOf(text, [cs |-> <<>>, err |-> FALSE, odd |-> FALSE])
\* the document with its style block decoded
Final(a) == IF a.st # "done" THEN a
            ELSE LET c == Classes(a.doc.style) IN IF c.err THEN [Err(a) EXCEPT !.odd = @ \/ c.odd] ELSE [a EXCEPT !.odd = @ \/ c.odd]
=============================================================================

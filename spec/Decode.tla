------------------------------- MODULE Decode -------------------------------
(* Style texts (C20): declarations, values by kind, and class definitions.   *)
(* Attribute values are sequences of canonical strings.                     *)
EXTENDS Base

Kind == [k \in {"font-family", "font-style", "font-weight", "font-decoration", "h-align", "v-align"} |-> "str"]
     @@ [k \in {"font-point-size", "width", "height", "line-spacing", "offset-x", "offset-y", "column-width", "line-width"} |-> "num"]
     @@ [k \in {"color", "text-color", "background-color"} |-> "rgb"]
     @@ [k \in {"padding", "margin"} |-> "num4"] @@ [k \in {"border"} |-> "int4"]
Attr == [x \in {"font-family"} |-> "fam"] @@ [x \in {"font-point-size"} |-> "pt"] @@ [x \in {"font-style"} |-> "fst"]
     @@ [x \in {"font-weight"} |-> "fwt"] @@ [x \in {"font-decoration"} |-> "fdc"] @@ [x \in {"border"} |-> "bor"]
     @@ [x \in {"padding"} |-> "pad"] @@ [x \in {"margin"} |-> "mar"] @@ [x \in {"width"} |-> "w"] @@ [x \in {"height"} |-> "h"]
     @@ [x \in {"line-spacing"} |-> "ls"] @@ [x \in {"offset-x"} |-> "ox"] @@ [x \in {"offset-y"} |-> "oy"]
     @@ [x \in {"column-width"} |-> "cw"] @@ [x \in {"h-align"} |-> "ha"] @@ [x \in {"v-align"} |-> "va"]
     @@ [x \in {"color"} |-> "fg"] @@ [x \in {"text-color"} |-> "tx"] @@ [x \in {"background-color"} |-> "bg"] @@ [x \in {"line-width"} |-> "lw"]

\* the style the harness applies declarations to
Filled == [fam |-> <<"~fam">>, pt |-> <<"-91">>, fst |-> <<"~fst">>, fwt |-> <<"~fwt">>, fdc |-> <<"~fdc">>,
           bor |-> <<"-1", "-2", "-3", "-4">>, pad |-> <<"-5", "-6", "-7", "-8">>, mar |-> <<"-9", "-10", "-11", "-12">>,
           w |-> <<"-13">>, h |-> <<"-14">>, ls |-> <<"-15">>, ox |-> <<"-16">>, oy |-> <<"-17">>, cw |-> <<"-18">>,
           ha |-> <<"~ha">>, va |-> <<"~va">>, fg |-> <<"010203">>, tx |-> <<"040506">>, bg |-> <<"070809">>, lw |-> <<"-19">>]

-----------------------------------------------------------------------------
(* Strings. *)
Ws == {" ", "\t", "\n", "\r"}
Trim(s) ==
  LET ks == {k \in 1..Len(s) : CharAt(s, k) \notin Ws}
  IN IF ks = {} THEN "" ELSE SubSeq(s, CHOOSE k \in ks : \A q \in ks : k <= q, CHOOSE k \in ks : \A q \in ks : k >= q)
\* the first position of character c in s from i on, Len(s) + 1 if none
RECURSIVE IndexFrom(_, _, _)
IndexFrom(s, c, i) == IF i > Len(s) THEN i ELSE IF CharAt(s, i) = c THEN i ELSE IndexFrom(s, c, i + 1)
From(s, i) == IF i > Len(s) THEN "" ELSE SubSeq(s, i, Len(s))
Upto(s, i) == IF i < 1 THEN "" ELSE SubSeq(s, 1, i)
RECURSIVE Split(_, _)
Split(s, c) == LET i == IndexFrom(s, c, 1) IN IF i > Len(s) THEN <<s>> ELSE <<Upto(s, i - 1)>> \o Split(From(s, i + 1), c)

-----------------------------------------------------------------------------
(* Values. [ok, v]                                                           *)
No == [ok |-> FALSE, v |-> <<>>]
Yes(v) == [ok |-> TRUE, v |-> v]
Dig == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DigitVal == [dg \in Dig |-> CHOOSE k \in 0..9 : ToString(k) = dg]
RECURSIVE DigitsEnd(_, _)       \* the position after the run of digits at i
DigitsEnd(s, i) == IF i <= Len(s) /\ CharAt(s, i) \in Dig THEN DigitsEnd(s, i + 1) ELSE i
NatOf(s) == FoldLeft(LAMBDA a, k : a * 10 + DigitVal[CharAt(s, k)], 0, [k \in 1..Len(s) |-> k])
Zeros(k) == ConcatStr([j \in 1..k |-> "0"])
RECURSIVE LStrip(_)
LStrip(s) == IF s # "" /\ CharAt(s, 1) = "0" THEN LStrip(From(s, 2)) ELSE s
RECURSIVE RStrip(_)
RStrip(s) == IF s # "" /\ CharAt(s, Len(s)) = "0" THEN RStrip(Upto(s, Len(s) - 1)) ELSE s
\* digits d with the decimal point after the p-th, as a plain decimal number
Plain(neg, d, p) ==
  LET whole == IF p <= 0 THEN "" ELSE IF p <= Len(d) THEN Upto(d, p) ELSE d \o Zeros(p - Len(d))
      part  == IF p <= 0 THEN Zeros(-p) \o d ELSE From(d, p + 1)
      w == LStrip(whole)   f == RStrip(part)
      abs == (IF w = "" THEN "0" ELSE w) \o (IF f = "" THEN "" ELSE "." \o f)
  IN (IF neg /\ abs # "0" THEN "-" ELSE "") \o abs
Signed(s) == s # "" /\ CharAt(s, 1) \in {"+", "-"}
Number(s) ==
  LET neg == s # "" /\ CharAt(s, 1) = "-"
      a  == IF Signed(s) THEN 2 ELSE 1
      b  == DigitsEnd(s, a)                                   \* whole part a..b-1
      dot == b <= Len(s) /\ CharAt(s, b) = "."
      c  == IF dot THEN DigitsEnd(s, b + 1) ELSE b            \* fraction b+1..c-1
      ds == (IF b > a THEN SubSeq(s, a, b - 1) ELSE "") \o (IF dot /\ c > b + 1 THEN SubSeq(s, b + 1, c - 1) ELSE "")
      hasE == c <= Len(s) /\ CharAt(s, c) \in {"e", "E"}
      es == IF hasE THEN From(s, c + 1) ELSE ""
      ed == IF Signed(es) THEN From(es, 2) ELSE es
      e  == IF ed = "" THEN 0 ELSE NatOf(ed) * (IF Signed(es) /\ CharAt(es, 1) = "-" THEN -1 ELSE 1)
  IN IF ds = "" \/ (hasE /\ (ed = "" \/ DigitsEnd(ed, 1) <= Len(ed))) \/ (~hasE /\ c <= Len(s)) THEN No
     ELSE Yes(<<Plain(neg, ds, (b - a) + e)>>)
Integer(s) ==
  LET a == IF Signed(s) THEN 2 ELSE 1
  IN IF a > Len(s) \/ DigitsEnd(s, a) <= Len(s) THEN No ELSE Yes(<<Plain(s # "" /\ CharAt(s, 1) = "-", From(s, a), Len(s) - a + 1)>>)
\* four sides; blanks after a comma are ignored
Four(s, P(_)) ==
  LET ps == Split(s, ",")
      vs == Tup([i \in 1..Len(ps) |-> P(Trim(ps[i]))])
  IN IF Len(ps) # 4 \/ \E i \in 1..4 : ~vs[i].ok THEN No ELSE Yes(Tup([i \in 1..4 |-> vs[i].v[1]]))
HexDigits == "0123456789abcdefABCDEF"
HexLower == [c \in {CharAt(HexDigits, i) : i \in 1..22} |->
              LET i == CHOOSE k \in 1..22 : CharAt(HexDigits, k) = c IN IF i <= 16 THEN c ELSE CharAt(HexDigits, i - 6)]
Colour(s) ==
  LET h == IF s # "" /\ CharAt(s, 1) = "#" THEN From(s, 2) ELSE s
  IN IF Len(h) # 6 \/ \E i \in 1..6 : CharAt(h, i) \notin DOMAIN HexLower THEN No
     ELSE Yes(<<ConcatStr([i \in 1..6 |-> HexLower[CharAt(h, i)]])>>)
Value(key, s) == CASE Kind[key] = "str" -> Yes(<<s>>) [] Kind[key] = "num" -> Number(s) [] Kind[key] = "rgb" -> Colour(s)
                   [] Kind[key] = "num4" -> Four(s, Number) [] Kind[key] = "int4" -> Four(s, Integer)

-----------------------------------------------------------------------------
(* Declarations: the decoder reads one after the other. out: attribute ->    *)
(* value; err: decoding fails. bad: keys whose value in force is not of its  *)
(* kind (an invalid value overridden later is not specified: odd).           *)
DecInit == [out |-> <<>>, bad |-> {}, err |-> FALSE, odd |-> FALSE]
Declare(a, text) ==
  LET t == Trim(text)
      kv == Split(t, ":")
      key == Trim(kv[1])
  IN IF t = "" THEN a
     ELSE IF Len(kv) # 2 \/ key = "" THEN [a EXCEPT !.err = TRUE]
     ELSE IF key \notin DOMAIN Kind THEN a
     ELSE LET v == Value(key, Trim(kv[2]))
              at == Attr[key]
          IN IF v.ok THEN [a EXCEPT !.out = [x \in {at} |-> v.v] @@ @, !.odd = @ \/ at \in a.bad]
             ELSE [a EXCEPT !.bad = @ \cup {at}]
Declarations(text) ==
  LET a == FoldLeft(Declare, DecInit, Split(text, ";"))
  IN [a EXCEPT !.err = @ \/ a.bad # {}]
Applied(out) == [at \in DOMAIN Filled |-> IF at \in DOMAIN out THEN out[at] ELSE Filled[at]]
=============================================================================

------------------------------- MODULE Base -------------------------------
(* Arithmetic and sequence helpers. All lengths are integers in 1/1000 mm.  *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

\* TLC evaluates a function constructor anew at every application; Tup makes it a tuple once
Tup(f) == f \o <<>>

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Abs(a)     == IF a < 0 THEN -a ELSE a
SumSeq(s)  == FoldLeft(LAMBDA acc, v : acc + v, 0, s)
MaxSeq(s, dflt) == FoldLeft(LAMBDA acc, v : Max2(acc, v), dflt, s)

\* a * b \div c without leaving 32 bits (a, b >= 0, c > 0)
RECURSIVE MulDivQR(_, _, _)
MulDivQR(a, b, c) ==
    IF b = 0 THEN [q |-> 0, r |-> 0]
    ELSE LET h  == MulDivQR(a, b \div 2, c)
             r1 == 2 * h.r
             q1 == 2 * h.q + r1 \div c
             s1 == r1 % c
         IN IF b % 2 = 0 THEN [q |-> q1, r |-> s1]
            ELSE LET s2 == s1 + (a % c)
                 IN [q |-> q1 + a \div c + s2 \div c, r |-> s2 % c]
MulDiv(a, b, c) == LET x == MulDivQR(a, b, c) IN IF 2 * x.r >= c THEN x.q + 1 ELSE x.q

\* strings
IsPrefixStr(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
RECURSIVE FindStr(_, _, _)
FindStr(p, s, i) == IF i + Len(p) - 1 > Len(s) THEN 0
                    ELSE IF SubSeq(s, i, i + Len(p) - 1) = p THEN i
                    ELSE FindStr(p, s, i + 1)
RECURSIVE ReplaceStr(_, _, _)
ReplaceStr(s, p, r) == LET i == FindStr(p, s, 1)
                       IN IF i = 0 THEN s
                          ELSE (IF i = 1 THEN "" ELSE SubSeq(s, 1, i - 1)) \o r \o
                               (IF i + Len(p) > Len(s) THEN ""
                                ELSE ReplaceStr(SubSeq(s, i + Len(p), Len(s)), p, r))
ConcatStr(ss) == FoldLeft(LAMBDA acc, v : acc \o v, "", ss)
CharAt(s, i) == SubSeq(s, i, i)
=============================================================================

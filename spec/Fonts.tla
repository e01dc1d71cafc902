-------------------------------- MODULE Fonts --------------------------------
(* Font definitions and the registry made of them (C22).                    *)
(* A definition is [mono, fonts], fonts a sequence of [n, st] and st a       *)
(* sequence of [s |-> variant, p |-> path]; dir is the definition's folder. *)
EXTENDS Base
RECURSIVE PSplit(_)
PSplit(p) == LET ks == {k \in 1..Len(p) : CharAt(p, k) = "/"} IN
             IF ks = {} THEN <<p>>
             ELSE LET k == CHOOSE x \in ks : \A y \in ks : x <= y IN
                  <<IF k = 1 THEN "" ELSE SubSeq(p, 1, k - 1)>> \o (IF k = Len(p) THEN <<"">> ELSE PSplit(SubSeq(p, k + 1, Len(p))))
\* a path without ".", ".." and empty parts
Clean(p) ==
  LET st == FoldLeft(LAMBDA a, x : CASE x \in {"", "."} -> a
                                     [] x = ".." -> IF a = <<>> THEN a ELSE SubSeq(a, 1, Len(a) - 1)
                                     [] OTHER -> Append(a, x), <<>>, PSplit(p))
  IN ConcatStr(Tup([k \in 1..Len(st) |-> "/" \o st[k]]))
\* absolute paths are taken as they are
Resolve(dir, p) == IF p # "" /\ CharAt(p, 1) = "/" THEN p ELSE Clean(dir \o "/" \o p)
Entry(dir, name, st) == [n |-> name, s |-> st.s, p |-> Resolve(dir, st.p)]
MonoOf(def) == IF def.mono = "" THEN "Courier" ELSE def.mono
=============================================================================

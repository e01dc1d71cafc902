------------------------------ MODULE Styles ------------------------------
(* Style attributes, the default style and the cascade (C11).               *)
(* A declaration is [k |-> attribute, v |-> value]; attributes that do not  *)
(* exist change nothing. A class is [n, d, s]: name, own declarations and   *)
(* selectors [n, d].                                                        *)
EXTENDS Base

DefaultStyle ==
  [ fam |-> "Arial", pt |-> 120, fst |-> "normal", fwt |-> "normal", fdc |-> "normal",
    bor |-> <<0, 0, 0, 0>>, pad |-> <<0, 0, 0, 0>>, mar |-> <<0, 0, 0, 0>>,
    w |-> -1000, h |-> -1000, ls |-> 1500, ox |-> 0, oy |-> 0,
    cw |-> -1000, ha |-> "left", va |-> "top",
    fg |-> "000000", tx |-> "000000", bg |-> "ffffff", lw |-> 1000 ]

Font(st) == [fam |-> st.fam, pt |-> st.pt, fst |-> st.fst, fwt |-> st.fwt, fdc |-> st.fdc]
DefaultFont == Font(DefaultStyle)
WithFont(st, f) == [st EXCEPT !.fam = f.fam, !.pt = f.pt, !.fst = f.fst, !.fwt = f.fwt, !.fdc = f.fdc]
\* point sizes are in tenths
PtStr(pt) == IF pt % 10 = 0 THEN ToString(pt \div 10) ELSE ToString(pt \div 10) \o "." \o ToString(pt % 10)
FontKey(f) == f.fam \o "/" \o PtStr(f.pt) \o "/" \o f.fst \o "/" \o f.fwt \o "/" \o f.fdc

Apply(st, decls) ==
  FoldLeft(LAMBDA s, d : IF d.k \in DOMAIN s THEN [s EXCEPT ![d.k] = d.v] ELSE s, st, decls)

\* the declarations a class contributes for a selector ("" : none)
ClassDecls(c, sel) ==
  LET hit == SelectSeq(c.s, LAMBDA x : x.n = sel)
  IN IF hit = <<>> THEN c.d ELSE hit[Len(hit)].d

ApplyClass(st, classes, name, sel) ==
  LET hit == SelectSeq(classes, LAMBDA c : c.n = name)
  IN IF hit = <<>> THEN st ELSE Apply(st, ClassDecls(hit[Len(hit)], sel))

\* the effective style of an element with class list and inline declarations
Cascade(classes, st, sel, clslist, decls) ==
  Apply(FoldLeft(LAMBDA s, c : ApplyClass(s, classes, c, sel), st, clslist), decls)

PadL(st) == st.pad[1]   PadT(st) == st.pad[2]   PadR(st) == st.pad[3]   PadB(st) == st.pad[4]
=============================================================================

---------------------------- MODULE DecodeTrace ----------------------------
(* The decoder reads a style text declaration by declaration, or a style     *)
(* block class by class; at the end it has to agree with the code.          *)
EXTENDS Decode, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.DOCS)
VARIABLES c, rest, a, cs, err, ph, n
vars == <<c, rest, a, cs, err, ph, n>>

\* rest: texts still to be read. cs: classes [n, out, s], selectors [n, out]
Init == LET ds == Cases IN \E k \in 1..Len(ds) :
          /\ c = ds[k] /\ a = DecInit /\ cs = <<>> /\ err = FALSE /\ ph = "read" /\ n = 0
          /\ rest = IF ds[k].op = "mut" THEN Split(ds[k].t, ";") ELSE ds[k].t
ReadDecl == /\ ph = "read" /\ c.op = "mut" /\ rest # <<>>
            /\ a' = Declare(a, rest[1]) /\ rest' = Tail(rest)
            /\ UNCHANGED <<c, cs, err, ph>>
EndDecls == /\ ph = "read" /\ c.op = "mut" /\ rest = <<>>
            /\ err' = (a.err \/ a.bad # {}) /\ ph' = "done" /\ UNCHANGED <<c, rest, a, cs>>

\* a class block: name "{" declarations "}"
Open  == IndexFrom(rest, "{", 1)
Close == IndexFrom(rest, "}", Open + 1)
Name  == Trim(Upto(rest, Open - 1))
Colon == IndexFrom(Name, ":", 1)
Base0 == Upto(Name, Colon - 1)
SelN  == From(Name, Colon + 1)
Body  == Declarations(SubSeq(rest, Open + 1, Close - 1))
Known == {i \in 1..Len(cs) : cs[i].n = Base0}
Put(seq, e) == SelectSeq(seq, LAMBDA x : x.n # e.n) \o <<e>>
Fail == err' = TRUE /\ ph' = "done" /\ UNCHANGED <<c, rest, a, cs>>
ReadClass ==
  /\ ph = "read" /\ c.op = "cls" /\ Open <= Len(rest)
  /\ IF Name = "" \/ Close > Len(rest) THEN Fail
     ELSE IF Body.err THEN err' = TRUE /\ ph' = "done" /\ a' = [a EXCEPT !.odd = @ \/ Body.odd] /\ UNCHANGED <<c, rest, cs>>
     ELSE IF Colon > Len(Name) \/ Colon = 1
     THEN /\ cs' = Put(cs, [n |-> Name, out |-> Body.out, s |-> <<>>])
          /\ rest' = From(rest, Close + 1) /\ a' = [a EXCEPT !.odd = @ \/ Body.odd] /\ UNCHANGED <<c, err, ph>>
     ELSE IF Known = {} THEN Fail
     ELSE LET k == CHOOSE i \in Known : TRUE
          IN /\ cs' = [cs EXCEPT ![k].s = Put(@, [n |-> SelN, out |-> Body.out])]
             /\ rest' = From(rest, Close + 1) /\ a' = [a EXCEPT !.odd = @ \/ Body.odd] /\ UNCHANGED <<c, err, ph>>
EndClasses == ph = "read" /\ c.op = "cls" /\ Open > Len(rest) /\ ph' = "done" /\ UNCHANGED <<c, rest, a, cs, err>>
Next == (ReadDecl \/ EndDecls \/ ReadClass \/ EndClasses) /\ n' = n + 1

\* what has to be observed
WantCs == {[n |-> cs[i].n, st |-> Applied(cs[i].out), s |-> {[n |-> cs[i].s[j].n, st |-> Applied(cs[i].s[j].out)] : j \in 1..Len(cs[i].s)}] : i \in 1..Len(cs)}
HaveCs == {[n |-> c.obs.cs[i].n, st |-> c.obs.cs[i].st, s |-> {c.obs.cs[i].s[j] : j \in 1..Len(c.obs.cs[i].s)}] : i \in 1..Len(c.obs.cs)}
Bad == IF c.obs.fault # "" THEN {"fault"}
       ELSE IF err # (c.obs.err # "") THEN {"verdict"}
       ELSE IF err THEN {}
       ELSE IF c.op = "mut" THEN (IF c.obs.st = Applied(a.out) THEN {} ELSE {"style"})
       ELSE IF WantCs = HaveCs THEN {} ELSE {"classes"}
Report == ph = "done" => PrintT("VERDICT " \o ToJson([id |-> c.id, amb |-> a.odd, steps |-> n, bad |-> Bad, err |-> err]))
\* a decoder that has not failed sets only attributes that exist, each to a complete value
SetsOnly == \A at \in DOMAIN a.out : at \in DOMAIN Filled /\ Len(a.out[at]) = Len(Filled[at])
OneClassPerName == \A i, j \in 1..Len(cs) : cs[i].n = cs[j].n => i = j
=============================================================================

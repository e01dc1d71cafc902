---------------------------- MODULE DescribeTrace ----------------------------
(* A document is loaded token by token and then described item by item; each *)
(* item has to be the next one of the observed description.                 *)
EXTENDS Describe, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.DOCS)
VARIABLES c, i, a, cs, todo, at, bad
vars == <<c, i, a, cs, todo, at, bad>>
\* todo: what is still to be described, [d, nd] (a node) or [d, sec] (a section heading)
Init == LET ds == Cases IN \E k \in 1..Len(ds) :
          c = ds[k] /\ i = 0 /\ a = L0 /\ cs = <<>> /\ todo = <<>> /\ at = 0 /\ bad = {}
Token == /\ a.st = "read" /\ i < Len(c.tk) /\ i' = i + 1 /\ a' = Feed(a, c.tk[i + 1]) /\ UNCHANGED <<c, cs, todo, at, bad>>
Ended == /\ a.st = "read" /\ i = Len(c.tk) /\ i' = i /\ a' = Eof(a) /\ UNCHANGED <<c, cs, todo, at, bad>>

Obs == c.obs
Has(k) == k <= Len(Obs.items)
SetOf(it) == [it EXCEPT !.df = {it.df[k] : k \in 1..Len(it.df)}]
ItemBad(w, k) == IF ~Has(k) THEN {"missing"}
                 ELSE LET o == SetOf(Obs.items[k]) IN
                      (IF o.n # w.n \/ o.d # w.d THEN {"item"} ELSE {}) \cup (IF o.v # w.v THEN {"value"} ELSE {})
                      \cup (IF o.df # w.df THEN {"style"} ELSE {})
ItemsBad(ws) == UNION {ItemBad(ws[k], at + k) : k \in 1..Len(ws)}
Nodes(d, is) == Tup([k \in 1..Len(is) |-> [d |-> d, nd |-> is[k]]])
\* the document is loaded
F == Final(a)
Start1 == /\ a.st = "done" /\ F.st = "done" /\ Obs.fault = "" /\ Obs.load = "" /\ at = 0 /\ bad = {}
          /\ cs' = Classes(a.doc.style).cs
          /\ todo' = <<[d |-> 0, sec |-> "header", is |-> a.doc.hdr], [d |-> 0, sec |-> "footer", is |-> a.doc.ftr],
                       [d |-> 0, sec |-> "body", is |-> a.doc.body]>>
          /\ LET ws == Heading(a.doc) IN at' = Len(ws) /\ bad' = ItemsBad(ws)
          /\ UNCHANGED <<c, i, a>>
Section == /\ todo # <<>> /\ bad = {} /\ "sec" \in DOMAIN todo[1]
           /\ bad' = ItemsBad(<<Item(0, todo[1].sec, "", {})>>) /\ at' = at + 1
           /\ todo' = Nodes(1, todo[1].is) \o Tail(todo)
           /\ UNCHANGED <<c, i, a, cs>>
Element == /\ todo # <<>> /\ bad = {} /\ "nd" \in DOMAIN todo[1]
           /\ LET t == todo[1]  ws == ItemsOf(cs, t.d, t.nd)
              IN bad' = ItemsBad(ws) /\ at' = at + Len(ws) /\ todo' = Nodes(t.d + 1, t.nd.is) \o Tail(todo)
           /\ UNCHANGED <<c, i, a, cs>>
Next == Token \/ Ended \/ Start1 \/ Section \/ Element
Over1 == a.st # "read" /\ ~ENABLED Start1 /\ (todo = <<>> \/ bad # {})
View == <<c.id, i, a.st, at, todo, bad>>
Bad == IF Obs.fault # "" THEN {"fault"}
       ELSE IF F.st = "err" THEN {}
       ELSE IF Obs.load # "" THEN {"load"}
       ELSE bad \cup (IF bad = {} /\ Has(at + 1) THEN {"more"} ELSE {})
            \cup (IF Obs.stable THEN {} ELSE {"again"}) \cup (IF Obs.xml THEN {} ELSE {"xml"}) \cup (IF Obs.json THEN {} ELSE {"json"})
            \cup (IF Obs.same THEN {} ELSE {"changed"})
Report == Over1 => PrintT("VERDICT " \o ToJson([id |-> c.id, amb |-> F.odd \/ (F.st = "err" /\ Obs.fault = ""), steps |-> i + at, bad |-> Bad, at |-> at]))
\* every style change names an attribute that was declared, and no value is reported as changed to itself
ChangesReal == (todo # <<>> /\ "nd" \in DOMAIN todo[1]) => \A x \in Changes(cs, todo[1].nd) : x.o # x.m
=============================================================================

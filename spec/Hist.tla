-------------------------------- MODULE Hist --------------------------------
(* Histories of loading, processing and describing documents (C24).          *)
(* Slots hold loaded documents. A run is a processing under way; it works    *)
(* through its document in slices, between which anything else may happen.   *)
(* What a processing or description yields is a function of the document in  *)
(* its slot (Out), and nothing changes a document: content is never updated  *)
(* but by loading it. So whatever the history, every result is the one the   *)
(* document alone yields - that is what the code is compared with.           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Slots, Runs, Slices, Extras, Engines
VARIABLES content, run, res, h, left
vars == <<content, run, res, h, left>>
Idle == [s |-> 0, e |-> "", k |-> 0, d |-> 0]
Out(dc, what) == <<dc, what>>       \* an arbitrary function
Init == /\ content = [s \in Slots |-> 0] /\ run = [r \in Runs |-> Idle] /\ res = {} /\ h = <<>> /\ left = Extras
Op(o, s, r, e) == [o |-> o, s |-> s, r |-> r, e |-> e]
\* the documents are loaded to begin with, in order
AllLoaded == \A s \in Slots : content[s] # 0
First == /\ ~AllLoaded
         /\ LET s == CHOOSE q \in Slots : content[q] = 0 /\ \A p \in Slots : p < q => content[p] # 0
            IN content' = [content EXCEPT ![s] = s] /\ h' = Append(h, Op("load", s, 0, ""))
         /\ UNCHANGED <<run, res, left>>
\* runs begin in the order of their numbers
Begin(r, s, e) == /\ AllLoaded /\ run[r].s = 0 /\ \A q \in Runs : q < r => run[q].s # 0
                  /\ run' = [run EXCEPT ![r] = [s |-> s, e |-> e, k |-> 0, d |-> content[s]]]
                  /\ h' = Append(h, Op("begin", s, r, e)) /\ UNCHANGED <<content, res, left>>
Step(r) == /\ run[r].s # 0 /\ run[r].k < Slices
           /\ run' = [run EXCEPT ![r].k = @ + 1]
           /\ res' = IF run[r].k + 1 = Slices THEN res \cup {<<run[r].d, run[r].e, Out(run[r].d, run[r].e)>>} ELSE res
           /\ h' = Append(h, Op("step", run[r].s, r, run[r].e)) /\ UNCHANGED <<content, left>>
Extra(o, s, e) == /\ AllLoaded /\ left > 0 /\ left' = left - 1
                  /\ h' = Append(h, Op(o, s, 0, e))
                  /\ content' = IF o = "load" THEN [content EXCEPT ![s] = s] ELSE content
                  /\ res' = IF o = "load" THEN res ELSE res \cup {<<content[s], o \o e, Out(content[s], o \o e)>>}
                  /\ UNCHANGED run
Next == \/ First
        \/ \E r \in Runs, s \in Slots, e \in Engines : Begin(r, s, e)
        \/ \E r \in Runs : Step(r)
        \/ \E s \in Slots, e \in Engines : Extra("proc", s, e)
        \/ \E s \in Slots : Extra("desc", s, "") \/ Extra("load", s, "")
Spec == Init /\ [][Next]_vars
Over == AllLoaded /\ left = 0 /\ \A r \in Runs : run[r].k = Slices
\* every result is that of the document alone
Pure == \A x \in res : x[3] = Out(x[1], x[2])
Unchanged == [][\A s \in Slots : content[s] # 0 => content'[s] = content[s]]_vars
=============================================================================

---------------------------- MODULE ProductTrace ----------------------------
(* Binds ProductOps to the classes of corgidrp.data.  State: [o |-> <<[kind,    *)
(* cid]>>, f |-> path -> [kind, cid]].  e.cid: identity of the content observed  *)
(* (the event number that first produced it), e.full: type-specific attributes   *)
(* and generic content agree, e.all: contents of every object afterwards.        *)
EXTENDS TraceBase
P == INSTANCE ProductOps

Put(s, e) ==
  CASE e.op = "new" -> [s EXCEPT !.o = Append(@, [kind |-> e.k, cid |-> e.n])]
    [] e.op = "edit" -> [s EXCEPT !.o[e.x].cid = e.n]
    [] e.op = "copy" -> [s EXCEPT !.o = Append(@, s.o[e.x])]
    [] e.op = "save" -> [s EXCEPT !.f = [q \in (DOMAIN s.f) \cup {e.p} |-> IF q = e.p THEN s.o[e.x] ELSE s.f[q]]]
    [] e.op = "load" -> IF P!CanLoad(s.f[e.p].kind, e.c) THEN [s EXCEPT !.o = Append(@, [s.f[e.p] EXCEPT !.kind = P!LoadedKind(@, e.c)])] ELSE s
    [] e.op = "auto" -> IF P!CanAuto(s.f[e.p].kind) THEN [s EXCEPT !.o = Append(@, s.f[e.p])] ELSE s
    [] OTHER -> s
Cls(k) == IF k \in {"Cube", "Raw"} THEN "Image" ELSE k
Refused(s, e) == \/ e.op = "load" /\ ~P!CanLoad(s.f[e.p].kind, e.c)
                 \/ e.op = "auto" /\ ~P!CanAuto(s.f[e.p].kind)

BookFails(e) ==
  IF ~P!Accepted(e.k, e.inputs, e.has) THEN Clause("M06_NeedsInputs", e.exc = "ValueError")
  ELSE IF e.exc # "" THEN {"M06_NoError"}
  ELSE Clause("M06_Type", e.type = e.k)
       \cup Clause("M06_Level", e.lvl = "CAL")
       \cup (IF e.k \in P!Parameters \/ (e.inputs = <<>> /\ ~e.has) THEN {} ELSE
             Clause("M06_Count", e.count = Cardinality(ToSet(e.files)) /\ e.count = Len(e.files))
             \cup Clause("M06_Parents", ToSet(e.files) = P!Parents(e.k, e.inputs, e.has, ToSet(e.old))))
       \cup (IF e.inputs = <<>> THEN {} ELSE Clause("M06_FileName", e.k \in P!Parameters \/ e.name = P!FileName(e.k, e.inputs)))

TheFails(s, e) ==
  IF e.op = "book" THEN BookFails(e)
  ELSE IF Refused(s, e) THEN Clause("M03_Refused", e.exc # "") \cup Clause("M03_OthersKept", e.all = [i \in DOMAIN s.o |-> s.o[i].cid])
  ELSE IF e.exc # "" THEN {"M03_NoError"}
  ELSE LET t == Put(s, e) IN
       Clause("M03_Contents", e.all = [i \in DOMAIN t.o |-> t.o[i].cid])
       \cup (IF e.op \in {"load", "auto"} THEN
               Clause("M03_Type", e.kind = Cls(t.o[Len(t.o)].kind))
               \cup Clause("M03_Attributes", e.full)
               \cup Clause("M03_Place", e.place)
             ELSE {})
       \cup (IF e.op = "save" THEN Clause("M03_Place", e.place) ELSE {})
TheStart(tr) == [o |-> <<>>, f |-> << >>]
TheNext(s, e) == IF e.op = "book" THEN s ELSE Put(s, e)
=============================================================================

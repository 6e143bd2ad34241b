---------------------------- MODULE CombineTrace ----------------------------
(* Binds CombineOps to combine.combine_subexposures / combine_images.          *)
(* e.px[p] = the samples of pixel p in file order (all frames), e.e2[l][p] =    *)
(* their squared errors (x4) in layer l; per output frame g: e.out[g].v[p]       *)
(* (x Z, divided by the group size when scaling), .d[p], .e2[l][p] (x 4 Z Z,     *)
(* medians divided by pi/2), header projections.                                *)
EXTENDS TraceBase
ZZ == 60
C == INSTANCE CombineOps WITH Z <- ZZ

GroupOf(e, g) == [i \in 1..e.size |-> (g - 1) * e.size + i]
Sub(seq, e, g) == [i \in 1..e.size |-> seq[(g - 1) * e.size + i]]

PixOK(e, g, p) ==
  LET s == Sub(e.px[p], e, g)
      o == e.out[g] IN
  IF C!AllBad(s) THEN o.v[p] = NAN
  ELSE o.v[p] = (IF e.method = "mean" THEN C!MeanZ(s) ELSE C!MedianZ(s))
FlagOK(e, g, p) == e.out[g].d[p] = C!OutFlags(Sub(e.px[p], e, g))
ErrOK(e, g, p, y) ==
  LET s == Sub(e.px[p], e, g)
      o == e.out[g].e2[y][p] IN
  IF C!AllBad(s) THEN o = NAN ELSE Near(o, C!ErrZZ(s, Sub(e.e2[y][p], e, g)), 2)

GroupFails(e, g) ==
  LET o == e.out[g]
      P == DOMAIN e.px IN
  Clause("S07_Data_" \o e.method, \A p \in P : PixOK(e, g, p))
  \cup Clause("S07_Flags", \A p \in P : FlagOK(e, g, p))
  \cup Clause("S07_Error_" \o e.method, Len(o.e2) = Len(e.e2) /\ \A y \in DOMAIN e.e2 : \A p \in P : ErrOK(e, g, p, y))
  \cup (IF e.images THEN {} ELSE
        Clause("S07_GroupSize", o.numfr = e.size)
        \cup Clause("S07_Parents", ToSet(o.files) = UNION {ToSet(e.parents[i]) \cup {e.names[i]} : i \in ToSet(GroupOf(e, g))}
                                   /\ o.nfiles = Cardinality(ToSet(o.files)))
        \cup Clause("S07_Name", o.name = e.names[g * e.size]))

TheFails(s, e) ==
  Clause("S07_InputUnchanged", e.inputok)
  \cup (IF Len(e.names) % e.size # 0 \/ e.method \notin {"mean", "median"}
        THEN Clause("S07_Rejected", e.exc = "ValueError")
        ELSE IF e.exc # "" THEN {"S07_NoError"}
        ELSE IF Len(e.out) # Len(e.names) \div e.size THEN {"S07_GroupCount"}
        ELSE UNION {GroupFails(e, g) : g \in DOMAIN e.out})
TheStart(tr) == 0
TheNext(s, e) == s + 1
=============================================================================

----------------------------- MODULE SortTrace -----------------------------
EXTENDS TraceBase, SortOps
\* e: [c, cal, exc, valueexc, out : sequence of [id, g, t, label], carried, inputkept]
KGainCall(cal) == cal \in {"k-gain", "kgain"}
NonLinCall(cal) == cal \in {"non-lin", "nonlin", "non-linearity", "nonlinearity"}
Labelled(e, l) == {e.out[i].id : i \in {j \in DOMAIN e.out : e.out[j].label = l}}
TheFails(s, e) ==
  LET U == Unity(e.c) mt == CHOOSE x \in MeanTimes(U) : TRUE
      nl == Labelled(e, "NONLIN")
      gains == {f.g : f \in SetOf(e.c)} \ {1} IN
  IF ~KGainCall(e.low) /\ ~NonLinCall(e.low) THEN Clause("K01_UnknownTypeRejected", e.exc # "" /\ e.named)
  ELSE IF ~HasKGain(e.c, mt) THEN Clause("K01_NoSeriesRejected", e.exc # "")
  ELSE IF e.exc # "" THEN {"K01_Works"}
  ELSE Clause("K01_MeanFrames", Labelled(e, "MNFRAME") \in MeanOptions(U, mt))
       \cup Clause("K01_KGainFrames", Labelled(e, "KGAIN") \in KGainOptions(e.c, mt))
       \cup Clause("K01_NonLinFrames", IF KGainCall(e.low) THEN nl = {}
                   ELSE \A g \in gains : {i \in nl : \E f \in SetOf(e.c) : f.id = i /\ f.g = g} \in NonLinOptions(e.c, g))
       \cup Clause("K01_Labels", \A i \in DOMAIN e.out : e.out[i].label \in {"MNFRAME", "KGAIN", "NONLIN"})
       \cup Clause("K01_EachOnce", Cardinality({e.out[i].id : i \in DOMAIN e.out}) = Len(e.out))
       \cup Clause("K01_FramesAsInput", e.carried)
       \cup Clause("K01_InputKept", e.inputkept)
TheStart(tr) == 0
TheNext(s, e) == s + 1
=============================================================================

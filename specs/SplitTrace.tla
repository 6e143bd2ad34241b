----------------------------- MODULE SplitTrace -----------------------------
(* Binds SplitOps to Dataset.split_dataset.                                    *)
EXTENDS TraceBase
S == INSTANCE SplitOps
TheFails(s, e) ==
  IF Len(e.vals[1]) = 0 THEN Clause("M05_NoKeywords", e.exc = "ValueError")
  ELSE IF e.exc # "" THEN {"M05_NoError"}
  ELSE Clause("M05_NonEmpty", S!NonEmpty(e.gs))
       \cup Clause("M05_Values", S!ValuesRight(e.vals, e.gs))
       \cup Clause("M05_Distinct", S!Distinct(e.gs))
       \cup Clause("M05_EveryFrame", S!Everyone(e.vals, e.gs))
       \cup Clause("M05_OnlyOnce", S!Once(e.vals, e.gs))
       \cup Clause("M05_Order", S!Ordered(e.gs))
       \cup Clause("M05_Reference", S!GroupSet(e.gs) = S!GroupSet(S!Reference(e.vals)))
       \cup Clause("M05_Content", e.content)
TheStart(tr) == 0
TheNext(s, e) == s + 1
=============================================================================

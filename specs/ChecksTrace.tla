---------------------------- MODULE ChecksTrace ----------------------------
EXTENDS TraceBase, Checks
\* e.name/e.excarg say whether the caller's variable name and exception class were proper
TheFails(s, e) ==
  IF ~e.goodname \/ ~e.goodexc
  THEN Clause("K07_BadCallRejected", e.exc = "CheckException")
  ELSE IF Accepts(e.f, e.v)
  THEN Clause("K07_Accepts", e.exc = "") \cup Clause("K07_ReturnsValue", e.exc # "" \/ e.same)
  ELSE Clause("K07_Rejects", e.exc # "")
       \cup Clause("K07_CallersException", e.exc = "" \/ e.exc = e.vexc)
       \cup Clause("K07_NameInMessage", e.exc = "" \/ e.named)
TheStart(tr) == 0
TheNext(s, e) == s + 1
=============================================================================

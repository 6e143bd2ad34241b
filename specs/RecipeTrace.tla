----------------------------- MODULE RecipeTrace -----------------------------
EXTENDS TraceBase, RecipeOps
\* e: a shipped recipe [level, nodata, names (known steps), types (known calibration types), settings (known settings),
\*    drp (its settings), steps [name, calibs, kw, params (names of the step function's parameters after the dataset), nreq, varkw, form]]
StepOk(e, s, st) ==
  IF st.name = "save" THEN {}
  ELSE Clause("W04_KnownStep", st.name \in ToSet(e.names))
       \cup Clause("W04_KnownCalibration", ToSet(st.calibs) \subseteq ToSet(e.types))
       \cup Clause("W04_CalibrationFits", Len(st.calibs) <= Len(st.params)
              /\ \A i \in DOMAIN st.calibs : i <= Len(st.params) => (st.params[i] \in DOMAIN Param => st.calibs[i] \in Param[st.params[i]]))
       \cup Clause("W04_CalibrationGiven", st.name \in DOMAIN Needs => Needs[st.name] \cap ToSet(st.calibs) # {})
       \cup Clause("W04_KeywordsFit", st.varkw \/ ToSet(st.kw) \subseteq {st.params[i] : i \in (Len(st.calibs) + 1)..Len(st.params)})
       \cup Clause("W04_NothingMissing", \A i \in (Len(st.calibs) + 1)..st.nreq : i <= Len(st.params) => st.params[i] \in ToSet(st.kw))
       \cup Clause("W04_RequestForm", \A i \in DOMAIN st.form : st.form[i])
       \cup Clause("W04_Level", e.nodata \/ LevelFits(s, st))
       \cup Clause("W04_Unit", e.nodata \/ e.pumped \/ UnitFits(s, st))
       \cup Clause("W04_ProductLast", OneUse(s, st))
TheFails(s, e) ==
  LET S == States(e.level, e.steps) IN
  Clause("W04_Settings", ToSet(e.drp) \subseteq ToSet(e.settings))
  \cup Clause("W04_Template", e.template)
  \cup Clause("W04_SavesResult", Len(e.steps) > 0 /\ S[Len(e.steps) + 1].saved)
  \cup UNION {StepOk(e, S[i], e.steps[i]) : i \in DOMAIN e.steps}
TheStart(tr) == 0
TheNext(s, e) == s + 1
=============================================================================

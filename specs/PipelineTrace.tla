---------------------------- MODULE PipelineTrace ----------------------------
EXTENDS TraceBase, PipelineOps

\* the trace's state: the dataset the specification predicts
TheStart(tr) == tr.meta.start

Kept(e) == [j \in DOMAIN e.out |-> e.pos[j]]
Expected(s, e) == OutFrames(s.fr, e.step, e.opt, Kept(e))

\* every call
Always(s, e) ==
  Clause("M01_InputUnchanged", e.changed = <<>>)
  \cup Clause("M01_CalibrationUnchanged", e.calchanged = <<>>)
  \cup Clause("M07_SameAgain", e.again)
  \cup Clause("M07_SettingsUntouched", e.settings)
  \cup Clause("H01_Rejects", MustFail(s, e.step, e.opt) => e.exc # "")
  \cup Clause("H01_Works", MustWork(s, e.step, e.opt) => e.exc = "")

Frames(s, e) ==
  LET x == Expected(s, e) IN
  IF e.step = "frame_select" /\ ~Increasing(e.pos, Len(s.fr)) THEN {"H01_Frames"}
  ELSE Clause("H01_Frames", [i \in DOMAIN e.out |-> e.out[i].id] = [i \in DOMAIN x |-> x[i].id])
       \cup (IF Len(e.out) # Len(x) THEN {} ELSE
             Clause("H01_Level", \A i \in DOMAIN x : e.out[i].lvl = x[i].lvl)
             \cup Clause("H01_Unit", \A i \in DOMAIN x : e.out[i].unit = x[i].unit)
             \cup Clause("H01_FileName", IsLevel(e.step) \/ e.step = "frame_select" \/ \A i \in DOMAIN x : e.out[i].name = x[i].name))

Headers(s, e) ==
  Clause("H01_OwnKeysOnly", Merges(e.step) \/ ToSet(e.keys) \subseteq Own(e.step) \cup {"HISTORY"})
  \cup Clause("H01_NothingDropped", e.dropped = <<>>)
  \cup Clause("H01_PrimaryKept", e.prikeys = <<>> \/ Merges(e.step))
  \cup Clause("H01_KeysWritten", Must(e.step) \subseteq ToSet(e.has))
  \cup Clause("H01_HistoryKept", e.histkept)
  \cup Clause("H01_HistoryEntry", Silent(e.step, e.opt) \/ e.histgrew)
  \cup Clause("H01_ErrUnit", e.step \in DOMAIN Unit /\ e.step # "divide_by_exptime" => \A i \in DOMAIN e.errunit : e.errunit[i] = Unit[e.step])

Flags(s, e) ==
  IF Resamples(e.step) THEN Clause("Q01_NoForeignFlags", \A i \in DOMAIN e.dq : SubFlags(e.dq[i], FlagBound(e.step, e.anyflag)))
  ELSE Clause("Q01_Shape", e.dqshape)
       \cup Clause("Q01_FlagsKept", \A i \in DOMAIN e.dq : SubFlags(e.dq[i][1], e.dq[i][3]))
       \cup Clause("Q01_OwnFlagsOnly", \A i \in DOMAIN e.dq : FlagOk(e.step, e.opt, e.dq[i][1], e.dq[i][2], e.dq[i][3]))

Memory(s, e) ==
  Clause("M02_StepLinked", e.linked)
  \cup Clause("M02_StepOwnPixels", IsLevel(e.step) \/ ~e.shared)
  \cup Clause("M02_StepOwnHeaders", ~e.sharedhdr)

TheFails(s, e) ==
  Always(s, e) \cup (IF e.exc # "" THEN {} ELSE Frames(s, e) \cup Headers(s, e) \cup Flags(s, e) \cup Memory(s, e))

\* after an accepted event the state is what the specification predicts; names and the area are taken over
TheNext(s, e) ==
  IF e.exc # "" THEN s
  ELSE LET x == Expected(s, e) IN
       [fr |-> [i \in DOMAIN x |-> [x[i] EXCEPT !.name = e.out[i].name]], area |-> e.area, dim |-> e.dim,
        mixed |-> e.mixed, bias |-> s.bias \/ e.step = "prescan_biassub"]
=============================================================================

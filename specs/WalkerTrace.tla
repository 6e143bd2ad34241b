----------------------------- MODULE WalkerTrace -----------------------------
(* Binds WalkerOps to walker.guess_template/autogen_recipe/run_recipe.            *)
EXTENDS TraceBase, WalkerOps

(* ---- choosing a recipe: each generated recipe is compared with the shipped      *)
(* templates; matches[k] = names of the templates it equals                        *)
ChoiceFails(e) ==
  LET want == Choice(e.f) IN
  IF want = <<>> THEN Clause("W01_NoRecipe", e.exc = "NotImplementedError")
  ELSE IF e.exc # "" THEN {"W01_Rejected"}
  ELSE Clause("W01_Recipe", Len(e.matches) = Len(want) /\ \A k \in DOMAIN want : want[k] \in ToSet(e.matches[k]))

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(SubSeq(ss, 2, Len(ss)))
ShippedFails(e) ==
  LET want == Choice(e.f) IN
  Clause("W01_ShippedRuns", e.exc = "")
  \cup Clause("W01_ShippedSteps", e.exc = "" => e.calls = Cat([k \in DOMAIN want |-> e.want[want[k]]]))

(* ---- generating *)
GenFails(e) ==
  LET g == Generate(e.steps, ToSet(e.have), e.jit, e.skipMissing) IN
  Clause("W02_TemplateUntouched", e.untouched)
  \cup (IF ~g.ok THEN Clause("W02_MissingIsValueError", e.exc = "ValueError")
        ELSE IF e.exc # "" THEN {"W02_Rejected"}
        ELSE Clause("W02_Inputs", e.inputs) \cup Clause("W02_OutputDir", e.outdir)
             \cup Clause("W02_NotATemplate", ~e.istemplate) \cup Clause("W02_SettingsKept", e.cfgkept)
             \cup Clause("W02_Steps", [k \in DOMAIN e.out |-> e.out[k].name] = [k \in DOMAIN e.steps |-> e.steps[k].name])
             \cup (IF Len(e.out) # Len(g.steps) THEN {} ELSE
                   Clause("W02_Calibrations", \A k \in DOMAIN g.steps : e.out[k].cal = g.steps[k].cal)
                   \cup Clause("W02_Skips", \A k \in DOMAIN g.steps : e.out[k].skip = g.steps[k].skip)
                   \cup Clause("W02_Keywords", \A k \in DOMAIN g.steps : e.out[k].kw)))

(* ---- running *)
RECURSIVE Sfx(_)
Sfx(ss) == IF ss = <<>> THEN "" ELSE "_" \o Head(ss) \o Sfx(SubSeq(ss, 2, Len(ss)))
NamesOf(e, sv) ==
  CASE sv.kind = "set" -> [k \in 1..e.nin |-> e.names[k] \o Sfx(sv.sfx) \o ".fits"]
    [] sv.kind = "one" -> IF e.nin = 0 THEN <<>> ELSE <<e.names[1] \o Sfx(sv.sfx) \o ".fits">>
    [] sv.kind = "prod" -> <<"prod" \o ToString(sv.who) \o Sfx(sv.sfx) \o ".fits">>
FileNames(e, sv) == ToSet(NamesOf(e, sv))
\* the save that last wrote a file of that name, 0 if none
LastSave(e, saves, nm) ==
  LET ks == {k \in DOMAIN saves : nm \in FileNames(e, saves[k])} IN
  IF ks = {} THEN 0 ELSE CHOOSE k \in ks : \A j \in ks : j <= k
AllNames(e, saves) == UNION {FileNames(e, saves[k]) : k \in DOMAIN saves}

\* the calibrations of the recipe as they stood when step number i was reached
RECURSIVE StepsAt(_, _, _, _, _)
StepsAt(st, i, have, jit, sm) == IF Done(st) \/ st.i > i THEN st.steps ELSE StepsAt(RunStep(st, have, jit, sm), i, have, jit, sm)

RunFails(e) ==
  LET have == ToSet(e.have)
      g == Generate(e.steps, have, e.jit, e.genSkip)
      st == RunAll(Start(g.steps), have, e.jit, e.skipMissing)
      saves == st.files IN
  IF ~g.ok THEN Clause("W03_RejectedRecipeRuns", e.exc = "ValueError" /\ e.calls = <<>> /\ e.files = <<>>)
  ELSE
  Clause("W03_ExecutedInOrder", [k \in DOMAIN e.calls |-> e.calls[k].i] = [k \in DOMAIN st.calls |-> st.calls[k].i])
  \cup Clause("W03_Outcome", e.exc = st.exc)
  \cup (IF [k \in DOMAIN e.calls |-> e.calls[k].i] # [k \in DOMAIN st.calls |-> st.calls[k].i] THEN {} ELSE
        Clause("W03_PreviousOutput", \A k \in DOMAIN st.calls : e.calls[k].tok = st.calls[k].tok)
        \cup Clause("W03_Frames", \A k \in DOMAIN st.calls : e.calls[k].names = NamesOf(e, st.calls[k]))
        \cup Clause("W03_Calibrations", \A k \in DOMAIN st.calls : e.calls[k].cal = st.calls[k].cal)
        \cup Clause("W03_CalibrationTypes", \A k \in DOMAIN st.calls : \A c \in DOMAIN st.calls[k].cal :
                       e.calls[k].types[c] = (IF st.calls[k].cal[c] = "null" THEN "" ELSE e.steps[st.calls[k].i].cal[c].ty))
        \cup Clause("W03_Keywords", \A k \in DOMAIN st.calls : e.calls[k].kw = e.steps[st.calls[k].i].kws)
        \cup Clause("W03_Settings", \A k \in DOMAIN st.calls : e.calls[k].trk = e.trk)
        \cup Clause("W03_RecipeInHeaders", \A k \in DOMAIN st.calls : e.calls[k].rec))
  \cup Clause("W03_Saved", {e.files[k].name : k \in DOMAIN e.files} = AllNames(e, saves))
  \cup Clause("W03_SavedContent", \A k \in DOMAIN e.files : LET j == LastSave(e, saves, e.files[k].name) IN j > 0 => e.files[k].tok = saves[j].tok)
  \cup Clause("W03_Registered", ToSet(e.db) = UNION {FileNames(e, saves[k]) : k \in {x \in DOMAIN saves : saves[x].kind = "prod"}})
  \cup Clause("W03_SavedRecipe", e.nin = 0 \/ \A k \in DOMAIN e.files : e.files[k].rec)
  \cup Clause("W03_SavedRecipeCalibrations", e.nin = 0 \/ \A k \in DOMAIN e.files :
         LET j == LastSave(e, saves, e.files[k].name)
             ss == StepsAt(Start(g.steps), saves[j].at, have, e.jit, e.skipMissing) IN
         j > 0 => \A i \in 1..saves[j].at : ~ss[i].skip => e.files[k].reccal[i] = ss[i].cal)
  \cup Clause("W03_RecipeFile", e.recfiles = e.wantrecfile /\ e.recfileok)

TheFails(s, e) == CASE e.op = "choice" -> ChoiceFails(e) [] e.op = "shipped" -> ShippedFails(e)
                    [] e.op = "gen" -> GenFails(e) [] e.op = "run" -> RunFails(e)
TheStart(tr) == 0
TheNext(s, e) == s + 1
=============================================================================

------------------------------- MODULE Walker -------------------------------
(* The recipe walker as a state machine: write a template step by step,          *)
(* generate the recipe, run it one step at a time.                               *)
EXTENDS WalkerOps
CONSTANTS MaxSteps, Kinds, Reqs, Types, Suffixes
VARIABLES phase, tmpl, cfg, rec, run
vars == <<phase, tmpl, cfg, rec, run>>

Cfgs == [have : SUBSET Types, jit : BOOLEAN, skipMissing : BOOLEAN]
CalReqs == {<<>>} \cup {<<[ty |-> t, req |-> q]>> : t \in Types, q \in Reqs}
           \cup {<<[ty |-> t, req |-> q], [ty |-> u, req |-> q2]>> : t \in Types, u \in Types, q \in Reqs, q2 \in Reqs}
StepSet == {[kind |-> k, skip |-> sk, cal |-> c, suffix |-> ""] : k \in Kinds \ {"save"}, sk \in BOOLEAN, c \in CalReqs}
           \cup {[kind |-> "save", skip |-> FALSE, cal |-> <<>>, suffix |-> x] : x \in Suffixes}
Init == /\ phase = "write" /\ tmpl = <<>> /\ cfg \in Cfgs
        /\ rec = <<>> /\ run = Start(<<>>)
Write(s) == /\ phase = "write" /\ Len(tmpl) < MaxSteps
            /\ tmpl' = Append(tmpl, s) /\ UNCHANGED <<phase, cfg, rec, run>>
Gen == /\ phase = "write" /\ tmpl # <<>>
       /\ LET g == Generate(tmpl, cfg.have, cfg.jit, cfg.skipMissing) IN
          IF g.ok THEN rec' = g.steps /\ phase' = "run" /\ run' = Start(g.steps)
          ELSE rec' = <<>> /\ phase' = "rejected" /\ UNCHANGED run
       /\ UNCHANGED <<tmpl, cfg>>
Step == /\ phase = "run" /\ ~Done(run)
        /\ run' = RunStep(run, cfg.have, cfg.jit, cfg.skipMissing)
        /\ UNCHANGED <<phase, tmpl, cfg, rec>>
Next == (\E s \in StepSet : Write(s)) \/ Gen \/ Step
Spec == Init /\ [][Next]_vars

\* ---- what the machine guarantees
Executed == [k \in DOMAIN run.calls |-> run.calls[k].i]
InOrderOnce == \A a, b \in DOMAIN run.calls : a < b => Executed[a] < Executed[b]
EachGetsPrevious == \A k \in DOMAIN run.calls : run.calls[k].tok = SubSeq(Executed, 1, k - 1)
NeverPendingWhenCalled == \A k \in DOMAIN run.calls : \A c \in DOMAIN run.calls[k].cal : run.calls[k].cal[c] \notin {"auto", "opt"}
SkippedNeverCalled == \A k \in DOMAIN run.calls : ~tmpl[run.calls[k].i].skip
NothingAfterFailure == run.exc # "" => \A k \in DOMAIN run.calls : run.calls[k].i <= run.i
\* a finished run executed every step that was neither skipped nor a save
Missing(s) == \E c \in DOMAIN s.cal : s.cal[c].req = "auto" /\ s.cal[c].ty \notin cfg.have
Complete == (phase = "run" /\ Done(run) /\ run.exc = "") =>
              {Executed[k] : k \in DOMAIN run.calls} = {i \in DOMAIN tmpl : tmpl[i].kind # "save" /\ ~tmpl[i].skip /\ ~Missing(tmpl[i])}
\* looking calibrations up early or late makes no difference to a run that is not stopped
EarlyLate ==
  (phase = "write" /\ tmpl # <<>>) =>
     LET g == Generate(tmpl, cfg.have, FALSE, cfg.skipMissing)
         late == RunAll(Start(tmpl), cfg.have, TRUE, cfg.skipMissing) IN
     g.ok => LET early == RunAll(Start(g.steps), cfg.have, FALSE, cfg.skipMissing) IN
             early.calls = late.calls /\ early.files = late.files /\ early.exc = late.exc
RejectedOnlyWhenMissing == phase = "rejected" => \E i \in DOMAIN tmpl : Missing(tmpl[i])
SavedIsApplied == \A k \in DOMAIN run.files : run.files[k].tok = SubSeq(Executed, 1, Len(run.files[k].tok))
ProductsRegistered == \A k \in DOMAIN run.files : run.files[k].kind = "prod" <=> <<run.files[k].who, run.files[k].sfx>> \in run.db
=============================================================================

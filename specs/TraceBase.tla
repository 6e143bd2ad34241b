----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Trace validation.  $TRACE names a JSON file holding recorded traces,    *)
(* each [meta |-> .., ev |-> <<event, ...>>].  A binding module supplies   *)
(*   TStart(tr)    the state before the first event of a trace,            *)
(*   TFails(st, e) the set of clauses the event violates in that state,    *)
(*   TNext(st, e)  the state after an accepted event.                      *)
(* Every trace is its own initial state; a trace stops at its first        *)
(* violated clause.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils

CONSTANTS TStart(_), TFails(_, _), TNext(_, _)

Traces == TLCCache(JsonDeserialize(IOEnv.TRACE), {"traces"})

VARIABLES trNo, trPos, trState, trOk

TInit == /\ trNo \in 1..Len(Traces)
         /\ trPos = 1
         /\ trState = TStart(Traces[trNo])
         /\ trOk = TRUE

TStep == /\ trOk
         /\ trPos <= Len(Traces[trNo].ev)
         /\ LET evt == Traces[trNo].ev[trPos]
                bad == TFails(trState, evt) IN
              IF bad = {}
              THEN /\ trState' = TNext(trState, evt)
                   /\ trOk' = TRUE
                   /\ IF trPos = Len(Traces[trNo].ev)
                      THEN PrintT("VJ " \o ToJson([k |-> "OK", t |-> trNo]))
                      ELSE TRUE
              ELSE /\ PrintT("VJ " \o ToJson([k |-> "V", t |-> trNo, l |-> trPos, f |-> bad]))
                   /\ trOk' = FALSE
                   /\ UNCHANGED trState
         /\ trPos' = trPos + 1
         /\ trNo' = trNo

TSpec == TInit /\ [][TStep]_<<trNo, trPos, trState, trOk>>

\* helpers used by the binding modules
Clause(name, cond) == IF cond THEN {} ELSE {name}
ToSet(s) == {s[i] : i \in DOMAIN s}
AbsT(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Near(a, b, tol) == AbsT(a - b) <= tol
NAN == -1000000007
INEXACT == -1000000009
SameSeqNear(a, b, tol) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Near(a[i], b[i], tol)
=============================================================================

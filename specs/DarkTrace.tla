----------------------------- MODULE DarkTrace -----------------------------
EXTENDS TraceBase, DarkOps
SC == 1000
Px(xs, i) == [k \in DOMAIN xs |-> xs[k][i]]
Flags(qs, i) == [k \in DOMAIN qs |-> IF qs[k][i] = 0 THEN 0 ELSE 1]
TelRow(e, i) == RowOf(i, e.fc) >= e.ts /\ RowOf(i, e.fc) < e.te
TelInImage(e) == \E r \in e.ts..(e.te - 1) : r >= e.a.r0 /\ r < e.a.r0 + e.a.rows

Combine(e) ==
  IF e.bad # "" THEN Clause("K03_BadInputRejected", e.exc = "TypeError")
  ELSE IF e.exc # "" THEN {"K03_Works"}
  ELSE LET I == DOMAIN e.x[1] N == Len(e.x) IN
       Clause("K03_Mean", \A i \in I : LET x == Px(e.x, i) m == Px(e.m, i) n == Num(x, m) IN
           IF n = 0 THEN e.o[i] = 0 ELSE Near(e.o[i] * n, SC * (IF e.err THEN Sum2(x, m) ELSE Sum(x, m)), n + 1))
       \cup Clause("K03_NoSampleMarked", \A i \in I : e.ob[i] = IF Num(Px(e.x, i), Px(e.m, i)) = 0 THEN 1 ELSE 0)
       \cup Clause("K03_SampleCount", \A i \in I : e.on[i] = Num(Px(e.x, i), Px(e.m, i)))
       \cup Clause("K03_EnoughForNoise", e.enough = \A i \in I : 2 * Num(Px(e.x, i), Px(e.m, i)) >= N)
       \cup Clause("K03_InputKept", e.kept)

Trad(e) ==
  IF e.mix # "" THEN Clause("K03_MixedRejected", e.exc # "")
  ELSE IF TelInImage(e) THEN Clause("K03_TelemetryRejected", e.exc = "ValueError")
  ELSE IF e.exc # "" THEN {"K03_Works"}
  ELSE LET I == 1..(e.fr * e.fc) N == Len(e.x)
           X(i) == IF TelRow(e, i) THEN [k \in 1..N |-> 0] ELSE Px(e.x, i)
           idx == CutOrFull([i \in I |-> i], e.fc, e.a, e.full) IN
       IF Len(e.o) # Len(idx) THEN {"K03_Area"} ELSE
       Clause("K03_Mean", \A k \in DOMAIN idx : LET i == idx[k] m == Flags(e.q, i) n == Num(X(i), m) IN
           n = 0 \/ Near(e.o[k] * n, SC * Sum(X(i), m), n + 1))
       \cup Clause("K03_Error", \A k \in DOMAIN idx : LET i == idx[k] m == Flags(e.q, i) n == Num(X(i), m) IN
           n = 0 \/ Near(e.oe2[k] * n * n * n, SC * TradErr3(X(i), Px(e.e, i), m), n * n * n * 2))
       \cup Clause("K03_Flags", \A k \in DOMAIN idx : LET i == idx[k] m == Flags(e.q, i) IN e.oq[k] \in TradFlag(Num(X(i), m), N))
       \cup Clause("K03_Labels", e.labels)
       \cup Clause("K03_Parents", e.parents)
       \cup Clause("K03_InputKept", e.kept)

Synth(e) ==
  LET g == EmGain(e.h) IN
  IF e.mix # "" THEN Clause("K04_MixedRejected", e.exc # "")
  ELSE IF e.bad \notin {"", "negF"} \/ g < 1 THEN Clause("K04_BadMapsRejected", e.exc = "TypeError")
  ELSE IF e.exc # "" THEN {"K04_Works"}
  ELSE LET idx == CutOrFull([i \in 1..(e.fr * e.fc) |-> i], e.fc, e.a, e.full) IN
       IF Len(e.o) # Len(idx) THEN {"K04_Area"} ELSE
       Clause("K04_NoiseModel", \A k \in DOMAIN idx : LET i == idx[k] IN Near(4 * g * e.o[k], SC * Synth4(e.f[i], e.d[i], e.c[i], g, e.t4), 4 * g))
       \cup Clause("K04_Error", \A k \in DOMAIN idx : LET i == idx[k] IN Near(16 * g * g * e.oe2[k], SC * SynthErr16(e.fe[i], e.de[i], e.ce[i], g, e.t4), 16 * g * g))
       \cup Clause("K04_Flags", \A k \in DOMAIN idx : e.oq[k] = e.or[idx[k]])
       \cup Clause("K04_Gain", e.og = g)
       \cup Clause("K04_ExpTime", e.ot4 = e.t4)
       \cup Clause("K04_Type", e.labels)
       \cup Clause("K04_InputKept", e.kept)

\* stacks whose pixel i still has a sample
Usable(e, i) == {k \in DOMAIN e.plan : Num(Px(e.x[k], i), Flags(e.q[k], i)) > 0}
\* stacks in which more than half of the samples are masked
Poor(e, i) == {k \in DOMAIN e.plan : 2 * Num(Px(e.x[k], i), Flags(e.q[k], i)) < Len(e.x[k])}
SubPlan(plan, K) == SelectSeq([k \in DOMAIN plan |-> [g |-> plan[k].g, t |-> plan[k].t, k |-> k]], LAMBDA r : r.k \in K)
Recover(e) ==
  IF ~PlanOk(e.plan) \/ e.unequal \/ e.badk THEN Clause("K05_BadPlanRejected", e.exc # "")
  ELSE IF TelInImage(e) THEN Clause("K05_TelemetryRejected", e.exc # "")
  ELSE IF ~Determined(e.plan) THEN {}
  ELSE IF e.exc # "" THEN {"K05_Works"}
  ELSE LET M == Len(e.plan)
           I == {i \in 1..(e.fr * e.fc) : ~TelRow(e, i)}
           \* pixels whose remaining stacks determine them and leave one to check the fit
           J == {i \in I : Cardinality(Usable(e, i)) > 3 /\ Determined(SubPlan(e.plan, Usable(e, i)))}
           A == ToSet(CutA([i \in 1..(e.fr * e.fc) |-> i], e.fc, e.a)) IN
       Clause("K05_FixedPattern", \A i \in J : Near(e.of[i], SC * e.f[i], 3))
       \cup Clause("K05_InducedCharge", \A i \in J : Near(e.oc[i], SC * e.c[i], 3))
       \cup Clause("K05_DarkCurrent", \A i \in J \cap A : Near(e.od[i], SC * e.d[i], 3))
       \cup Clause("K05_NonNegative", \A i \in I : e.oc[i] >= 0 /\ e.od[i] >= 0)
       \cup Clause("K05_FitErrors", e.clean => \A i \in J : Near(e.fe[i], 0, 2) /\ (i \in A => Near(e.de[i], 0, 2)) /\ (e.zeroerr => Near(e.ce[i], 0, 2)))
       \cup Clause("K05_Unreliable", \A i \in I : LET p == Cardinality(Poor(e, i)) >= M - 3 u == M - Cardinality(Usable(e, i)) >= M - 3 IN
                     \A l \in 1..3 : e.oq[l][i] \in IF u THEN {1, 257} ELSE IF p THEN {256} ELSE {0})
       \cup Clause("K05_BiasOffset", (\A i \in I : (i - 1) % e.fc < e.a.c0 => i \in J) => Near(e.bo, 0, 3))
       \cup Clause("K05_Telemetry", \A i \in 1..(e.fr * e.fc) : TelRow(e, i) => e.of[i] = NAN /\ e.oc[i] = NAN /\ e.od[i] = NAN)
       \cup Clause("K05_InputKept", e.kept)

Bad(e) ==
  IF e.exc # "" THEN {"K02_Works"}
  ELSE LET dark == IF e.how = "maps" THEN [i \in DOMAIN e.f |-> e.f[i] \div e.g + e.t * e.d[i] + e.c[i]] ELSE e.d
           hot == HotOf(dark, e.kn, e.kd)
           dead == DeadOf(e.flat, e.rows, e.cols, e.fn, e.fd, e.w)
           none == [i \in DOMAIN e.flat |-> "no"] IN
       IF Len(e.o) # e.rows * e.cols THEN {"K02_Shape"} ELSE
       CASE e.how = "hot" -> Clause("K02_Hot", \A i \in DOMAIN e.o : e.o[i] \in BadWords(hot[i], "no"))
         [] e.how = "dead" -> Clause("K02_Dead", \A i \in DOMAIN e.o : e.o[i] \in BadWords("no", dead[i]))
         [] OTHER -> Clause("K02_Map", \A i \in DOMAIN e.o : e.o[i] \in BadWords(hot[i], dead[i]))
                     \cup Clause("K02_Parents", e.parents) \cup Clause("K02_Type", e.labels) \cup Clause("K02_InputKept", e.kept)

TheFails(s, e) ==
  CASE e.kind = "combine" -> Combine(e)
    [] e.kind = "trad" -> Trad(e)
    [] e.kind = "synth" -> Synth(e)
    [] e.kind = "lsq" -> Recover(e)
    [] OTHER -> Bad(e)
TheStart(tr) == 0
TheNext(s, e) == s + 1
=============================================================================

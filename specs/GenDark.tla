------------------------------ MODULE GenDark ------------------------------
(* Random scenarios for averaging, traditional and synthesized darks, noise-map  *)
(* calibration and bad-pixel maps; pixel contents come from the seed.            *)
EXTENDS DarkOps, Json, Randomization
CONSTANTS Kinds
VARIABLES c, t
R(S) == RandomElement(S)
Mostly(x, S) == IF RandomElement(1..10) <= 6 THEN x ELSE RandomElement(S)
\* frame rows/columns, image area (rows, cols, r0, c0), telemetry rows [ts, te) usually outside it
Geo == \E rows \in {R(1..3)}, cols \in {R(1..3)}, r0 \in {R(0..2)}, c0 \in {R(1..3)}, below \in {R(1..2)}, right \in {R(1..2)} :
         \E fr \in {r0 + rows + below}, fc \in {c0 + cols + right}, clash \in {R(1..8) = 1} :
         \E ts \in {IF clash THEN r0 ELSE R((r0 + rows)..fr)} : \E te \in {IF clash THEN r0 + 1 ELSE R(ts..fr)} :
           c' = c @@ [fr |-> fr, fc |-> fc, a |-> [rows |-> rows, cols |-> cols, r0 |-> r0, c0 |-> c0], ts |-> ts, te |-> te]
Head1(x) == [kind |-> R(Kinds), seed |-> R(0..99999), full |-> R(BOOLEAN), dens |-> R(0..3)]
Gains == {1, 2, 4, 5, 8}
Combine == \E n \in {R(1..6)} :
   c' = c @@ [n |-> n, rows |-> R(1..3), cols |-> R(1..4), err |-> R(BOOLEAN), stack |-> R(BOOLEAN),
              bad |-> Mostly("", {"length", "empty", "oned", "shape", "mask2", "maskfloat", "maskshape", "string"})]
Trad == \E n \in {R(1..6)} : c' = c @@ [n |-> n, g |-> R(Gains), t4 |-> R({0, 1, 4, 10}), mix |-> IF n = 1 THEN "" ELSE Mostly("", {"EXPTIME", "EMGAIN_C", "KGAINPAR"}),
                                         where |-> R(1..n), layers |-> R(1..2)]
Synth == \E n \in {R(1..3)} : c' = c @@ [n |-> n, h |-> [m |-> Mostly(NoGain, Gains), a |-> Mostly(-1, {0} \cup Gains), c |-> R(Gains)], t4 |-> R({0, 1, 4, 10, 40}),
                                          mix |-> IF n = 1 THEN "" ELSE Mostly("", {"EXPTIME", "EMGAIN_C", "KGAINPAR"}), where |-> R(1..n),
                                          bad |-> Mostly("", {"shape", "negD", "negC", "negF", "gain"}), saved |-> R(BOOLEAN)]
\* a plan grows stack by stack
Stack(n) == [g |-> R({1, 1, 2, 3, 5, 10}), t |-> R({0, 1, 1, 2, 3, 7}), h |-> Mostly("C", {"A", "M"})]
RECURSIVE PlanOf(_)
PlanOf(n) == IF n = 0 THEN <<>> ELSE LET s == Stack(n) IN <<s>> \o PlanOf(n - 1)
Lsq == \E n \in {R({3, 4, 4, 5, 5, 6, 7})} : \E plan \in {PlanOf(n)} :
   c' = c @@ [plan |-> plan, n |-> R(1..4), bad |-> Mostly("", {"unequal", "gain", "exptime", "kgain", "same"}), where |-> R(1..n), sh |-> R(BOOLEAN), clean |-> R(BOOLEAN)]
Bpm == c' = c @@ [rows |-> R(2..7), cols |-> R(2..7), kn |-> R({0, 1, 2, 3, 5, 10}), kd |-> R({1, 2, 4}), fn |-> R(0..4), fd |-> R({5, 4, 8}), w |-> R({1, 2, 3, 4, 5, 8, 32}),
                  how |-> Mostly("map", {"maps", "hot", "dead"}), g |-> R({1, 2, 4}), t |-> R({0, 1, 3}), spread |-> R({1, 3, 20}), defaults |-> R(1..6) = 1]
Init == c = <<>> /\ t = 0
Next == \/ t = 0 /\ t' = 1 /\ c' = Head1(c)
        \/ t = 1 /\ t' = 2 /\ (IF c.kind \in {"trad", "lsq", "synth"} THEN Geo ELSE UNCHANGED c)
        \/ t = 2 /\ t' = 3 /\ (CASE c.kind = "combine" -> Combine [] c.kind = "trad" -> Trad [] c.kind = "synth" -> Synth [] c.kind = "lsq" -> Lsq [] OTHER -> Bpm)
Spec == Init /\ [][Next]_<<c, t>>
GPrint == t = 3 => PrintT("VJ " \o ToJson(c))
=============================================================================

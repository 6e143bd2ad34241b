------------------------------- MODULE MCDark -------------------------------
(* Lemmas of DarkOps over small stacks, plans and images. *)
EXTENDS DarkOps
CONSTANTS V, N, G, T, P
VARIABLES x, m, e, plan, img, mode
Init == /\ mode = 0 /\ x = <<>> /\ m = <<>> /\ e = <<>> /\ plan = <<>> /\ img = <<>>
AddSample == mode \in {0, 1} /\ Len(x) < N /\ mode' = 1 /\ \E v \in V, b \in {0, 1}, z \in {0, 2} : x' = Append(x, v) /\ m' = Append(m, b) /\ e' = Append(e, z) /\ UNCHANGED <<plan, img>>
AddStack == mode \in {0, 2} /\ Len(plan) < 4 /\ mode' = 2 /\ \E g \in G, t \in T : plan' = Append(plan, [g |-> g, t |-> t]) /\ UNCHANGED <<x, m, e, img>>
AddPix == mode \in {0, 3} /\ Len(img) < P /\ mode' = 3 /\ \E v \in 0..2 : img' = Append(img, v) /\ UNCHANGED <<x, m, e, plan>>
Next == AddSample \/ AddStack \/ AddPix
Spec == Init /\ [][Next]_<<x, m, e, plan, img, mode>>
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
\* masked samples and the order of frames do not matter
Averages == mode = 1 =>
  /\ Sum(x, m) = Sum(Rev(x), Rev(m)) /\ Num(x, m) = Num(Rev(x), Rev(m))
  /\ \A v \in V : LET y == [k \in DOMAIN x |-> IF m[k] = 1 THEN v ELSE x[k]] IN Sum(y, m) = Sum(x, m) /\ TradErr3(y, e, m) = TradErr3(x, e, m)
  /\ TradErr3(x, e, m) >= 0
  /\ (Num(x, m) > 0 => \E k \in DOMAIN x : m[k] = 0 /\ x[k] * Num(x, m) >= Sum(x, m))
\* a determined plan tells any two pixels apart
M == 0..2
Identifies == mode = 2 /\ Len(plan) = 4 /\ Determined(plan) =>
  \A f, d, c, f2, d2, c2 \in M : (\A i \in DOMAIN plan : Model(f, d, c, plan[i].g, plan[i].t) = Model(f2, d2, c2, plan[i].g, plan[i].t)) => <<f, d, c>> = <<f2, d2, c2>>
\* stacks average to the model the synthesized dark divides by the gain
SynthModel == mode = 2 => \A i \in DOMAIN plan : \A f, d, c \in M : Synth4(f, d, c, plan[i].g, 4 * plan[i].t) = 4 * Model(f, d, c, plan[i].g, plan[i].t)
BadPixels == mode = 3 /\ Len(img) = P =>
  /\ HotOf([i \in DOMAIN img |-> img[i] + 7], 1, 1) = HotOf(img, 1, 1)
  /\ \A i \in DOMAIN img : HotOf(img, 2, 1)[i] = "yes" => HotOf(img, 1, 1)[i] = "yes"
  /\ \E i \in DOMAIN img : HotOf(img, 1, 1)[i] # "yes"
  /\ \A w \in 1..3 : /\ DeadOf([i \in DOMAIN img |-> 3 * img[i]], P \div 2, 2, 1, 2, w) = DeadOf(img, P \div 2, 2, 1, 2, w)
                     /\ \A i \in DOMAIN img : DeadOf(img, P \div 2, 2, 1, 2, w)[i] = "yes" => DeadOf(img, P \div 2, 2, 3, 4, w)[i] = "yes"
  /\ \A i \in DOMAIN img : DeadOf(img, P \div 2, 2, 1, 2, 1)[i] # "yes"
=============================================================================

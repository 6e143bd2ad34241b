------------------------------ MODULE GenWalker ------------------------------
(* Random templates and configurations for replay into walker.py.               *)
EXTENDS WalkerOps, Json, Randomization
VARIABLES tmpl, cfg, len
vars == <<tmpl, cfg, len>>
Types == {"A", "B", "C"}
Reqs == {"auto", "opt", "file", "null"}
Tri == {"absent", "yes", "no"}
R(S) == RandomElement(S)
RandReq(i) == R({"auto", "auto", "opt", "opt", "file", "null"} \cup {"auto"})
Cal1(x) == <<[ty |-> R(Types), req |-> R(Reqs)]>>
Cal2(x) == LET a == R(Types) b == R(Types \ {a}) IN <<[ty |-> a, req |-> R(Reqs)], [ty |-> b, req |-> R(Reqs)]>>
RandCal(x) == LET n == R(0..4) IN IF n <= 1 THEN <<>> ELSE IF n <= 3 THEN Cal1(x) ELSE Cal2(x)
KindBag == <<"pass", "pass", "pass", "pass", "pass", "merge", "prod", "fail", "save", "save", "save">>
RandStep(i) ==
  LET k == KindBag[R(1..11)]
      first == (cfg.nin = 0 /\ i = 1) IN
  IF first THEN [kind |-> "prod", skip |-> FALSE, cal |-> <<>>, suffix |-> "", kw |-> TRUE]
  ELSE IF k = "save" THEN [kind |-> "save", skip |-> FALSE, cal |-> <<>>, suffix |-> R({"", "", "x", "y"}), kw |-> R(BOOLEAN)]
  ELSE LET c == RandCal(i)
           sk == R(1..6) = 1 /\ \A n \in DOMAIN c : c[n].req \in {"file", "null"} IN
       [kind |-> k, skip |-> sk, cal |-> c, suffix |-> "", kw |-> k # "pass" \/ R(BOOLEAN)]
RandCfg(x) == [have |-> R(SUBSET Types), gjit |-> R(BOOLEAN), djit |-> R(Tri), gskip |-> R(BOOLEAN), dskip |-> R({"absent", "absent", "yes", "no"}),
               trk |-> R(Tri), nin |-> R({0, 1, 2, 3}), recfile |-> R(BOOLEAN), byfile |-> R(BOOLEAN), walk |-> R(BOOLEAN)]
Init == tmpl = <<>> /\ cfg = [nin |-> -1] /\ len = 0
Next == IF len = 0
        THEN tmpl' = tmpl /\ cfg' = RandCfg(0) /\ len' = R(1..7)
        ELSE /\ Len(tmpl) < len
             /\ tmpl' = Append(tmpl, RandStep(Len(tmpl) + 1))
             /\ UNCHANGED <<cfg, len>>
Spec == Init /\ [][Next]_vars
GPrint == (len > 0 /\ Len(tmpl) = len) => PrintT("VJ " \o ToJson([tmpl |-> tmpl, cfg |-> cfg]))
=============================================================================

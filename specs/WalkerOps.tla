------------------------------ MODULE WalkerOps ------------------------------
(* Recipes: choosing one, resolving its calibrations, running it.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* ------------------------------------------------------- which recipe          *)
\* f = [lvl |-> data level, vis |-> visit type ("" = no such keyword),
\*      pc |-> photon counting, many |-> the list mixes exposure settings,
\*      fsm |-> loop state of the fast steering mirror]
EngVisits == {"ENGPUPIL", "ENGIMGAGE", "ENG"}
Choice(f) ==
  CASE f.lvl = "L1" ->
         (CASE f.vis = "" -> <<"l1_to_l2b.json">>
            [] f.vis \in EngVisits -> <<"l1_to_l2a_eng.json">>
            [] f.vis = "BORESITE" -> <<"l1_to_boresight.json">>
            [] f.vis = "FFIELD" -> <<"l1_flat_and_bp.json">>
            [] f.vis = "DARK" -> IF f.pc THEN <<"l1_to_l2b_pc_dark.json">>
                                 ELSE IF f.many THEN <<"l1_to_l2a_noisemap.json">> ELSE <<"build_trad_dark_image.json">>
            [] f.vis = "PUPILIMG" -> <<"l1_to_l2a_nonlin.json", "l1_to_kgain.json">>
            [] OTHER -> <<"l1_to_l2a_basic.json">>)
    [] f.lvl = "L2a" ->
         IF f.vis = "DARK"
         THEN IF f.pc THEN <<"l2a_to_l2b_pc_dark.json">>
              ELSE IF f.many THEN <<"l2a_to_l2a_noisemap.json">> ELSE <<"l2a_build_trad_dark_image.json">>
         ELSE IF f.pc THEN <<"l2a_to_l2b_pc.json">> ELSE <<"l2a_to_l2b.json">>
    [] f.lvl = "L2b" ->
         IF f.vis \in {"ABSFLXFT", "ABSFLXBT"} THEN <<"l2b_to_fluxcal_factor.json">>
         ELSE IF f.vis = "CORETPUT" THEN <<"l2b_to_corethroughput.json">> ELSE <<"l2b_to_l3.json">>
    [] f.lvl = "L3" -> IF f.fsm = 1 THEN <<"l3_to_l4.json">> ELSE <<"l3_to_l4_nopsfsub.json">>
    [] OTHER -> <<>>                              \* no recipe applies

(* ------------------------------------------- steps and their calibrations      *)
\* A step is [kind, skip, cal]: kind in {"pass", "merge", "prod", "fail", "save"};
\* cal is a sequence of [ty, req]: req "auto", "opt" (look one up; optional),
\* "file" (named explicitly), "null" (none), and after resolution "best" (the best
\* match) or "null".  have: the calibration types the database can match.
Pending(s) == \E k \in DOMAIN s.cal : s.cal[k].req \in {"auto", "opt"}

\* resolution goes calibration by calibration and stops at the first failure
RECURSIVE ResolveFrom(_, _, _, _)
ResolveFrom(s, k, have, skipMissing) ==
  IF k > Len(s.cal) THEN [ok |-> TRUE, step |-> s]
  ELSE LET c == s.cal[k] IN
       IF c.req \notin {"auto", "opt"} THEN ResolveFrom(s, k + 1, have, skipMissing)
       ELSE IF c.ty \in have THEN ResolveFrom([s EXCEPT !.cal[k].req = "best"], k + 1, have, skipMissing)
       ELSE IF c.req = "opt" THEN ResolveFrom([s EXCEPT !.cal[k].req = "null"], k + 1, have, skipMissing)
       ELSE IF skipMissing THEN ResolveFrom([s EXCEPT !.cal[k].req = "null", !.skip = TRUE], k + 1, have, skipMissing)
       ELSE [ok |-> FALSE, step |-> s]
Resolve(s, have, skipMissing) == ResolveFrom(s, 1, have, skipMissing)

\* Generation: resolve every step now, or leave all of them for processing time.
RECURSIVE GenFrom(_, _, _, _)
GenFrom(steps, k, have, skipMissing) ==
  IF k > Len(steps) THEN [ok |-> TRUE, steps |-> steps]
  ELSE LET r == Resolve(steps[k], have, skipMissing) IN
       IF r.ok THEN GenFrom([steps EXCEPT ![k] = r.step], k + 1, have, skipMissing)
       ELSE [ok |-> FALSE, steps |-> steps]
Generate(steps, have, jit, skipMissing) ==
  IF jit THEN [ok |-> TRUE, steps |-> steps] ELSE GenFrom(steps, 1, have, skipMissing)

(* ------------------------------------------------------------- running         *)
\* Running state: [i, steps, tok, kind, calls, files, exc]
\*   tok   the sequence of step numbers applied to the data so far
\*   kind  "set" (n frames), "one" (frames merged into one), "prod" (a product)
\*   calls what each executed step received: [i, in, cal]
\*   sfx   the suffixes saved under so far: saving under a suffix renames the data
\*   who   the number of the step that made the product (0: the frames themselves)
\*   files what was saved; db what was registered
Start(steps) == [i |-> 1, steps |-> steps, tok |-> <<>>, kind |-> "set", who |-> 0, sfx |-> <<>>, calls |-> <<>>,
                 files |-> <<>>, exc |-> "", db |-> {}]
Done(st) == st.i > Len(st.steps) \/ st.exc # ""

\* files: the saves in order, [sfx, kind, who, tok, at]; a later save to the same
\* name replaces the earlier file.
\* a product saved earlier in the run can be looked up by a later step
ProdType == "FluxcalFactor"
RunStep(st, have0, jit, skipMissing) ==
  LET s == st.steps[st.i]
      have == IF st.db = {} THEN have0 ELSE have0 \cup {ProdType} IN
  IF s.kind = "save"
  THEN [st EXCEPT !.i = @ + 1,
                  !.sfx = IF s.suffix = "" THEN @ ELSE Append(@, s.suffix),
                  !.files = Append(@, [sfx |-> IF s.suffix = "" THEN st.sfx ELSE Append(st.sfx, s.suffix), kind |-> st.kind, who |-> st.who, tok |-> st.tok, at |-> st.i]),
                  !.db = IF st.kind = "prod" THEN @ \cup {<<st.who, IF s.suffix = "" THEN st.sfx ELSE Append(st.sfx, s.suffix)>>} ELSE @]
  ELSE LET r == IF jit THEN Resolve(s, have, skipMissing) ELSE [ok |-> TRUE, step |-> s]
           st1 == [st EXCEPT !.steps[st.i] = r.step] IN
       IF ~r.ok THEN [st EXCEPT !.exc = "ValueError"]
       ELSE IF r.step.skip THEN [st1 EXCEPT !.i = @ + 1]
       ELSE LET call == [i |-> st.i, tok |-> st.tok, kind |-> st.kind, who |-> st.who, sfx |-> st.sfx, cal |-> [k \in DOMAIN r.step.cal |-> r.step.cal[k].req]]
                st2 == [st1 EXCEPT !.calls = Append(@, call)] IN
            IF s.kind = "fail" THEN [st2 EXCEPT !.exc = "StepError"]
            ELSE [st2 EXCEPT !.i = @ + 1, !.tok = Append(@, st.i),
                             !.kind = IF s.kind = "prod" THEN "prod" ELSE IF s.kind = "merge" /\ @ = "set" THEN "one" ELSE @,
                             !.sfx = IF s.kind = "prod" THEN <<>> ELSE @,
                             !.who = IF s.kind = "prod" THEN st.i ELSE @]
RECURSIVE RunAll(_, _, _, _)
RunAll(st, have, jit, skipMissing) == IF Done(st) THEN st ELSE RunAll(RunStep(st, have, jit, skipMissing), have, jit, skipMissing)
=============================================================================

---------------------------- MODULE GenPipeline ----------------------------
(* Random processing histories: a start dataset and a sequence of step calls,   *)
(* in the nominal order with steps left out or repeated, or in any order.        *)
EXTENDS PipelineOps, Json, Randomization
CONSTANTS Depth
VARIABLES cfg, calls, pos, tries
vars == <<cfg, calls, pos, tries>>
R(S) == RandomElement(S)
Order == <<"prescan_biassub", "detect_cosmic_rays", "correct_nonlinearity", "update_to_l2a",
           "frame_select", "convert_to_electrons", "em_gain_division", "add_photon_noise", "dark_subtraction", "flat_division",
           "correct_bad_pixels", "desmear", "cti_correction", "update_to_l2b",
           "create_wcs", "divide_by_exptime", "update_to_l3",
           "distortion_correction", "find_star", "crop", "northup", "flag_nans", "nan_flags", "do_psf_subtraction", "update_to_l4",
           "determine_app_mag", "determine_color_cor", "convert_to_flux", "determine_flux", "update_to_tda", "combine_subexposures">>
First == "L1" :> 1 @@ "L2a" :> 5 @@ "L2b" :> 15 @@ "L3" :> 18 @@ "L4" :> 25 @@ "SAT" :> 18
Init == cfg = [fam |-> ""] /\ calls = <<>> /\ pos = 0 /\ tries = 0
Start == /\ tries = 0
         /\ cfg' = [fam |-> R({"L1", "L2a", "L2b", "L3", "L4", "L1", "SAT"}), n |-> R(1..4), seed |-> R(0..999), track |-> R(BOOLEAN),
                    mixed |-> R(1..4) = 1, ordered |-> R(1..3) # 1]
         /\ pos' = First[cfg'.fam]
         /\ tries' = 1 /\ UNCHANGED calls
Step == /\ tries > 0 /\ tries < Depth
        /\ \E w \in {R(1..10)}, opt \in {R(0..3)}, sd \in {R(0..99)}, jump \in {R(1..Len(Order))} :
             LET k == IF cfg.ordered /\ w <= 8 THEN IF pos > Len(Order) THEN jump ELSE pos ELSE jump IN
             /\ calls' = Append(calls, [step |-> Order[k], opt |-> opt, seed |-> sd])
             /\ pos' = IF cfg.ordered /\ w <= 8 THEN k + (IF w = 1 THEN 0 ELSE IF w = 2 THEN 2 ELSE 1) ELSE pos
        /\ tries' = tries + 1
        /\ UNCHANGED cfg
Spec == Init /\ [][Start \/ Step]_vars
GPrint == tries = Depth => PrintT("VJ " \o ToJson([cfg |-> cfg, calls |-> calls]))
=============================================================================

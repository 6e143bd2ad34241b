----------------------------- MODULE RecipeOps -----------------------------
(* Well-formed recipes.  A recipe is a sequence of steps [name, calibs          *)
(* (calibration types in order), kw (keywords)].  Running it over frames of its  *)
(* input level, the level and the unit of the data follow the steps like an      *)
(* automaton; a step that cannot accept the current level or unit, or whose       *)
(* calibrations and keywords do not fit its parameters, makes it ill-formed.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* level update steps, and steps that make a calibration product
Update == "update_to_l2a" :> <<"L1", "L2a">> @@ "update_to_l2b" :> <<"L2a", "L2b">> @@ "update_to_l3" :> <<"L2b", "L3">>
          @@ "update_to_l4" :> <<"L3", "L4">>
Makers == {"calibrate_nonlin", "boresight_calibration", "calibrate_trap_pump", "create_bad_pixel_map", "calibrate_kgain", "calibrate_darks",
           "create_onsky_flatfield", "build_trad_dark", "calibrate_fluxcal_aper", "generate_ct_cal"}
\* the levels at which a processing step may run
At == [n \in {"prescan_biassub", "detect_cosmic_rays", "correct_nonlinearity", "sort_pupilimg_frames"} |-> {"L1"}]
      @@ [n \in {"add_photon_noise", "dark_subtraction", "flat_division", "frame_select", "convert_to_electrons", "em_gain_division", "cti_correction",
                 "correct_bad_pixels", "desmear", "get_pc_mean"} |-> {"L2a"}]
      @@ [n \in {"divide_by_exptime", "create_wcs"} |-> {"L2b"}]
      @@ [n \in {"northup", "distortion_correction", "find_star", "do_psf_subtraction"} |-> {"L3"}]
\* units: a step changes the unit from one of the first to the second
UnitStep == "convert_to_electrons" :> <<{"DN"}, "EM e">> @@ "em_gain_division" :> <<{"EM e", "DN"}, "e">> @@ "dark_subtraction" :> <<{"e"}, "ph e">>
            @@ "get_pc_mean" :> <<{"EM e"}, "ph e">> @@ "divide_by_exptime" :> <<{"ph e"}, "ph e/s">>
\* what a parameter of a step may be given (parameters not listed accept anything)
Param == "noise_maps" :> {"DetectorNoiseMaps"} @@ "detector_params" :> {"DetectorParams"} @@ "k_gain" :> {"KGain"}
         @@ "non_lin_correction" :> {"NonLinearityCalibration"} @@ "dark" :> {"Dark", "DetectorNoiseMaps"} @@ "master_dark" :> {"Dark", "DetectorNoiseMaps"}
         @@ "flat_field" :> {"FlatField"} @@ "master_flat" :> {"FlatField"} @@ "pump_trap_cal" :> {"TrapCalibration"} @@ "bp_mask" :> {"BadPixelMap"}
         @@ "astrom_calibration" :> {"AstrometricCalibration"} @@ "ct_calibration" :> {"CoreThroughputCalibration"}
         @@ "corethroughput_cal" :> {"CoreThroughputCalibration"} @@ "flux_cal" :> {"FluxcalFactor"} @@ "fluxcal_factor" :> {"FluxcalFactor"}
         @@ "pc_master_dark" :> {"Dark"}
\* steps that need a calibration to do their work
Needs == "correct_nonlinearity" :> {"NonLinearityCalibration"} @@ "convert_to_electrons" :> {"KGain"} @@ "do_psf_subtraction" :> {"CoreThroughputCalibration"}
         @@ "create_wcs" :> {"AstrometricCalibration"} @@ "distortion_correction" :> {"AstrometricCalibration"} @@ "update_to_l4" :> {"FluxcalFactor"}
         @@ "flat_division" :> {"FlatField"} @@ "correct_bad_pixels" :> {"BadPixelMap"} @@ "desmear" :> {"DetectorParams"}
         @@ "detect_cosmic_rays" :> {"DetectorParams"}
SetOf(q) == {q[i] : i \in DOMAIN q}

\* the first level and unit of a recipe: "l2a_to_..." starts at L2a; files named otherwise start at L1
Start(level) == [lvl |-> level, unit |-> IF level \in {"L1", "L2a"} THEN "DN" ELSE IF level = "L2b" THEN "ph e" ELSE "ph e/s", made |-> FALSE, saved |-> TRUE]
After(s, st) ==
  IF st.name = "save" THEN [s EXCEPT !.saved = TRUE]
  ELSE [lvl |-> IF st.name \in DOMAIN Update THEN Update[st.name][2] ELSE s.lvl,
        unit |-> IF st.name \in DOMAIN UnitStep THEN UnitStep[st.name][2] ELSE s.unit,
        made |-> s.made \/ st.name \in Makers, saved |-> FALSE]
LevelFits(s, st) ==
  /\ st.name \in DOMAIN Update => s.lvl = Update[st.name][1]
  /\ st.name \in DOMAIN At => s.lvl \in At[st.name]
UnitFits(s, st) == st.name \in DOMAIN UnitStep => s.unit \in UnitStep[st.name][1]
OneUse(s, st) == s.made => st.name \in {"save"} \cup Makers               \* a product is not processed further
RECURSIVE Run(_, _)
Run(s, steps) == IF steps = <<>> THEN s ELSE Run(After(s, Head(steps)), SubSeq(steps, 2, Len(steps)))
States(level, steps) == [i \in 1..(Len(steps) + 1) |-> Run(Start(level), SubSeq(steps, 1, i - 1))]
=============================================================================

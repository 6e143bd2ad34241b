---------------------------- MODULE PipelineOps ----------------------------
(* The processing pipeline as a state machine.  The state is a dataset: a       *)
(* sequence of frames [id, lvl, unit, name, sat, ref] together with the frame    *)
(* area ("full", "image" or "other").  A step maps it to the next dataset or     *)
(* fails; Works says where it must not fail, Fails where it must.                *)
EXTENDS DQBitsOps, TLC

Steps == {"prescan_biassub", "detect_cosmic_rays", "correct_nonlinearity", "update_to_l2a", "add_photon_noise",
  "dark_subtraction", "flat_division", "frame_select", "convert_to_electrons", "em_gain_division", "cti_correction",
  "correct_bad_pixels", "desmear", "update_to_l2b", "combine_subexposures", "divide_by_exptime", "create_wcs",
  "update_to_l3", "distortion_correction", "crop", "northup", "do_psf_subtraction", "update_to_l4",
  "determine_app_mag", "determine_color_cor", "convert_to_flux", "determine_flux", "update_to_tda", "find_star",
  "nan_flags", "flag_nans"}
LevelStep == "update_to_l2a" :> <<"L1", "L2a">> @@ "update_to_l2b" :> <<"L2a", "L2b">> @@ "update_to_l3" :> <<"L2b", "L3">>
             @@ "update_to_l4" :> <<"L3", "L4">> @@ "update_to_tda" :> <<"L4", "TDA">>
IsLevel(step) == step \in DOMAIN LevelStep
Unit == "convert_to_electrons" :> "detected EM electrons" @@ "em_gain_division" :> "detected electrons"
        @@ "dark_subtraction" :> "Photoelectrons" @@ "divide_by_exptime" :> "photoelectrons/s"
        @@ "convert_to_flux" :> "erg/(s*cm^2*AA)"

\* --- what a step may do to the headers -------------------------------------------------------------------------
WcsKeys == {"CTYPE1", "CTYPE2", "CDELT1", "CDELT2", "CRPIX1", "CRPIX2", "CRVAL1", "CRVAL2", "CD1_1", "CD1_2", "CD2_1", "CD2_2",
            "CUNIT1", "CUNIT2", "PLTSCALE"}
Size == {"NAXIS", "NAXIS1", "NAXIS2", "NAXIS3", "NAXIS4"}
Parents == {"DRPNFILE"} \cup {"FILE" \o ToString(i) : i \in 0..30}
OwnKeys ==
  "prescan_biassub" :> Size
  @@ "detect_cosmic_rays" :> {"FWC_PP_E", "FWC_EM_E", "SAT_DN"}
  @@ "frame_select" :> {"FRMSEL01", "FRMSEL02", "FRMSEL03", "FRMSEL04", "FRMSEL05", "FRMSEL06", "IS_BAD"}
  @@ "convert_to_electrons" :> {"BUNIT", "KGAINPAR", "KGAIN_ER", "RN", "RN_ERR"}
  @@ "em_gain_division" :> {"BUNIT"} @@ "dark_subtraction" :> {"BUNIT"} @@ "divide_by_exptime" :> {"BUNIT"}
  @@ "combine_subexposures" :> ({"NUM_FR"} \cup Parents)
  @@ "create_wcs" :> WcsKeys
  @@ "northup" :> {"CD1_1", "CD1_2", "CD2_1", "CD2_2"}
  @@ "crop" :> (Size \cup {"STARLOCX", "STARLOCY", "CRPIX1", "CRPIX2", "DETPIX0X", "DETPIX0Y"})
  @@ "update_to_l4" :> {"DATALVL", "CTCALFN", "FLXCALFN"}
  @@ "determine_app_mag" :> {"APP_MAG"} @@ "determine_color_cor" :> {"LAM_REF", "COL_COR"}
  @@ "convert_to_flux" :> {"BUNIT", "FLUXFAC"}
  @@ "determine_flux" :> {"FLUXFAC", "LOCBACK", "FLUX", "FLUXERR", "APP_MAG", "MAGERR"}
  @@ "find_star" :> {"STARLOCX", "STARLOCY"} @@ "desmear" :> {"DESMEAR"}
Own(step) == IF step \in DOMAIN OwnKeys THEN OwnKeys[step] ELSE IF IsLevel(step) THEN {"DATALVL"} ELSE {}
\* keywords a successful call always leaves behind
MustHave ==
  "detect_cosmic_rays" :> {"FWC_PP_E", "FWC_EM_E", "SAT_DN"} @@ "convert_to_electrons" :> {"BUNIT", "KGAINPAR", "KGAIN_ER", "RN", "RN_ERR"}
  @@ "combine_subexposures" :> {"NUM_FR"} @@ "create_wcs" :> {"CD1_1", "CD1_2", "CD2_1", "CD2_2", "CRPIX1", "CRPIX2", "CRVAL1", "CRVAL2"}
  @@ "crop" :> {"DETPIX0X", "DETPIX0Y"} @@ "update_to_l4" :> {"CTCALFN", "FLXCALFN"} @@ "determine_app_mag" :> {"APP_MAG"}
  @@ "determine_color_cor" :> {"LAM_REF", "COL_COR"} @@ "convert_to_flux" :> {"FLUXFAC"}
  @@ "determine_flux" :> {"FLUX", "FLUXERR", "APP_MAG", "MAGERR", "LOCBACK"} @@ "find_star" :> {"STARLOCX", "STARLOCY"} @@ "desmear" :> {"DESMEAR"}
  @@ "frame_select" :> {"FRMSEL01", "FRMSEL02", "FRMSEL03", "FRMSEL04", "FRMSEL05", "FRMSEL06"}
Must(step) == IF step \in DOMAIN MustHave THEN MustHave[step] ELSE {}
\* steps that leave no history entry (nothing was done to the data, or helpers that are not steps themselves)
Silent(step, opt) == step \in {"cti_correction", "nan_flags", "flag_nans"} \/ (step = "correct_nonlinearity" /\ opt = 3)
\* steps that start a new header out of several frames
Merges(step) == step \in {"do_psf_subtraction"}

\* --- frames of the output ---------------------------------------------------------------------------------------
GroupSize(opt, n) == CASE opt = 1 -> 2 [] opt = 2 -> 1 [] OTHER -> n
KeepAll(step, opt) == ~(step \in {"frame_select", "combine_subexposures", "do_psf_subtraction"} \/ (step = "find_star" /\ opt # 1))
OutFrame(f, step) == [f EXCEPT !.lvl = IF IsLevel(step) THEN LevelStep[step][2] ELSE @,
                               !.unit = IF step \in DOMAIN Unit THEN Unit[step] ELSE @]
\* the frames a step returns; frame selection depends on the pixels, so the kept positions are given
OutFrames(fs, step, opt, kept) ==
  LET n == Len(fs) IN
  CASE step = "frame_select" -> [i \in DOMAIN kept |-> OutFrame(fs[kept[i]], step)]
    [] step = "combine_subexposures" ->
         LET g == GroupSize(opt, n) IN [i \in 1..(n \div g) |-> [fs[(i - 1) * g + 1] EXCEPT !.name = fs[i * g].name]]
    [] step = "find_star" /\ opt # 1 -> SelectSeq(fs, LAMBDA f : f.sat = 0)
    [] step = "do_psf_subtraction" ->
         LET sci == SelectSeq(fs, LAMBDA f : f.ref = 0) IN <<[sci[1] EXCEPT !.name = sci[Len(sci)].name]>>
    [] OTHER -> [i \in 1..n |-> OutFrame(fs[i], step)]
Increasing(kept, n) == (\A i \in DOMAIN kept : kept[i] \in 1..n) /\ \A i \in 1..(Len(kept) - 1) : kept[i] < kept[i + 1]

\* --- where a step must fail -------------------------------------------------------------------------------------
MustFail(s, step, opt) ==
  \/ IsLevel(step) /\ \E i \in DOMAIN s.fr : s.fr[i].lvl # LevelStep[step][1]
  \/ step = "combine_subexposures" /\ Len(s.fr) % GroupSize(opt, Len(s.fr)) # 0
  \/ step = "dark_subtraction" /\ (s.mixed \/ opt = 2)
  \/ step = "do_psf_subtraction" /\ \A i \in DOMAIN s.fr : s.fr[i].ref = 1
\* --- and where it must not: ordinary frames of the right kind
MustWork(s, step, opt) ==
  /\ ~MustFail(s, step, opt)
  /\ \/ step \in {"add_photon_noise", "flat_division", "em_gain_division", "convert_to_electrons", "divide_by_exptime", "nan_flags",
                  "flag_nans", "correct_bad_pixels", "cti_correction", "combine_subexposures", "correct_nonlinearity"} /\ s.dim = 2
     \/ IsLevel(step)
     \/ step = "prescan_biassub" /\ s.area = "full" /\ ~s.bias      \* a second bias would need the extension of the first
     \/ step = "dark_subtraction" /\ s.dim = 2 /\ (opt % 2 = 0 \/ s.area \in {"full", "image"})

\* --- flags: a flag word of an input pixel, of the calibration there, and of the output pixel it becomes -------------
FlagOk(step, opt, i, c, o) ==
  CASE step = "detect_cosmic_rays" -> SubFlags(i, o) /\ SubFlags(o, Or(i, 160))
    [] step = "correct_nonlinearity" -> SubFlags(i, o) /\ SubFlags(o, Or(i, 64))
    [] step = "dark_subtraction" -> o = Or(i, c)
    [] step = "flat_division" -> o = Or(i, c)
    [] step = "correct_bad_pixels" -> o = IF Or(i, c) = 0 THEN 0 ELSE Or(Or(i, c), 2)
    [] step = "flag_nans" -> SubFlags(i, o) /\ SubFlags(o, Or(i, <<1, 2, 16, 128>>[opt + 1]))
    [] OTHER -> o = i
\* steps whose output pixels are not input pixels: only flags present before may appear
Resamples(step) == step \in {"northup", "combine_subexposures", "do_psf_subtraction"}
FlagBound(step, any) == IF step = "northup" THEN any ELSE Or(any, 1)
=============================================================================

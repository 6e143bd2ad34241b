------------------------------ MODULE MCChoice ------------------------------
(* The decision table: total on the levels it names, independent of what does    *)
(* not matter, and every recipe it names belongs to the frame's level.            *)
EXTENDS WalkerOps
VARIABLE f
Lvls == {"L1", "L2a", "L2b", "L3", "L4", "CAL"}
Vis == {"", "ENGPUPIL", "ENGIMGAGE", "BORESITE", "FFIELD", "DARK", "PUPILIMG", "ABSFLXFT", "ABSFLXBT", "CORETPUT", "SCI"}
Init == f \in [lvl : Lvls, vis : Vis, pc : BOOLEAN, many : BOOLEAN, fsm : {0, 1}]
Next == UNCHANGED f
Spec == Init /\ [][Next]_f
FromL1 == {"l1_to_l2b.json", "l1_to_l2a_eng.json", "l1_to_boresight.json", "l1_flat_and_bp.json", "l1_to_l2b_pc_dark.json", "l1_to_l2a_noisemap.json",
           "build_trad_dark_image.json", "l1_to_l2a_nonlin.json", "l1_to_kgain.json", "l1_to_l2a_basic.json"}
FromL2a == {"l2a_to_l2b_pc_dark.json", "l2a_to_l2a_noisemap.json", "l2a_build_trad_dark_image.json", "l2a_to_l2b_pc.json", "l2a_to_l2b.json"}
FromL2b == {"l2b_to_fluxcal_factor.json", "l2b_to_corethroughput.json", "l2b_to_l3.json"}
FromL3 == {"l3_to_l4.json", "l3_to_l4_nopsfsub.json"}
Set(s) == {s[i] : i \in DOMAIN s}
Total == (f.lvl \in {"L1", "L2a", "L2b", "L3"}) <=> (Choice(f) # <<>>)
OwnLevel == Set(Choice(f)) \subseteq (CASE f.lvl = "L1" -> FromL1 [] f.lvl = "L2a" -> FromL2a [] f.lvl = "L2b" -> FromL2b [] f.lvl = "L3" -> FromL3 [] OTHER -> {})
OnlyDarksMix == (Choice([f EXCEPT !.many = TRUE]) # Choice([f EXCEPT !.many = FALSE])) => (f.vis = "DARK" /\ ~f.pc /\ f.lvl \in {"L1", "L2a"})
CountingMatters == (Choice([f EXCEPT !.pc = TRUE]) # Choice([f EXCEPT !.pc = FALSE])) => (f.lvl = "L2a" \/ (f.lvl = "L1" /\ f.vis = "DARK"))
LoopMatters == (Choice([f EXCEPT !.fsm = 1]) # Choice([f EXCEPT !.fsm = 0])) <=> f.lvl = "L3"
=============================================================================

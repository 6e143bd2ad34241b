------------------------------ MODULE MCSelect ------------------------------
EXTENDS SelectOps, TLC
VARIABLES f, cfg
Lims == {Off, 0, 2}
Frames == [d : [1..4 -> {0, 2, 6}], over : BOOLEAN, z : [1..4 -> {0, 2, 3}]]
Cfgs == [frac8 : {0, 2, 4, 8}, allowed : {0, 2, 6}, over : BOOLEAN, rms : Lims, bias : Lims]
Init == /\ f \in [d : {<<0, 0, 0, 0>>, <<2, 0, 0, 0>>, <<2, 6, 0, 0>>, <<6, 6, 2, 6>>}, over : BOOLEAN, z : [1..4 -> {0, 2, 3}]]
        /\ cfg \in Cfgs
Next == UNCHANGED <<f, cfg>>
AllOff == [cfg EXCEPT !.frac8 = 8, !.over = FALSE, !.rms = Off, !.bias = Off]
NothingEnabled == ~Rejected(f, AllOff)
\* allowing more flags never rejects more
Allowing == Rejected(f, [cfg EXCEPT !.allowed = 6]) => Rejected(f, [cfg EXCEPT !.allowed = 0])
\* enabling one more criterion never accepts more
Enabling == Rejected(f, cfg) => Rejected(f, [cfg EXCEPT !.over = TRUE])
Clean == (f.d = <<0, 0, 0, 0>>) => "pix" \notin Reasons(f, cfg)
AtLimitIsGood == (cfg.rms = f.z[1]) => "z2var" \notin Reasons(f, cfg)
Full == (cfg.frac8 = 0 /\ BadCount(f, cfg) > 0) => "pix" \in Reasons(f, cfg)
=============================================================================

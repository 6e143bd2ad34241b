------------------------------ MODULE GenRot ------------------------------
EXTENDS RotOps, TLC, Json, Randomization
VARIABLES c, t
R(S) == RandomElement(S)
Init == c = 0 /\ t = 0
Next == /\ t = 0 /\ t' = 1
        /\ \E kind \in {R({"exact", "exact", "ramp"})} : \E ang \in {R(IF kind = "exact" THEN Quarters ELSE Angles)}, big \in {IF kind = "ramp" THEN 16 ELSE 0} :
           c' = [kind |-> kind, rows |-> R(4..9) + big, cols |-> R(4..9) + big, a |-> ang, mode |-> R({"centre", "star", "given"}), hasstar |-> R(1..4) # 1,
                 cx |-> R(4..12) + big, cy |-> R(4..12) + big, layers |-> R(1..3), wcs |-> R(BOOLEAN), n |-> R(1..3), seed |-> R(0..99999)]
Spec == Init /\ [][Next]_<<c, t>>
GPrint == t = 1 => PrintT("VJ " \o ToJson(c))
=============================================================================

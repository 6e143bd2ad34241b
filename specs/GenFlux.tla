-------------------------------- MODULE GenFlux --------------------------------
EXTENDS FluxOps, Json, Randomization, TLC
CONSTANT Kind
VARIABLES c, t
R(X) == RandomElement(X)
Often(x, X) == IF RandomElement(1..10) <= 8 THEN x ELSE RandomElement(X)
Star(d) == [w |-> R(15..19), h |-> R(15..19), x |-> R(5..9), y |-> R(5..9), peak |-> R(13..40), vals |-> R(1..6), errs |-> R(0..4), flags |-> R(0..3), seed |-> R(0..99999)]
Phot(d) == [s |-> R({1, 1, 2}), r2 |-> 2 * R(1..4) + 1, k |-> R({1, 1, 2}), b |-> R(0..4), sub |-> R(BOOLEAN), center |-> R({"xy", "xy", "guess", "wcs"}), dflt |-> R(1..8) = 1]
Conv == c' = [kind |-> "conv", n |-> R(1..3), w |-> R(1..3), h |-> R(1..3), fn |-> R(1..24), en |-> R(0..16), cc |-> R({0, 1, 2, 4, 8}), vals |-> [i \in 1..9 |-> R(-30..60)], errs |-> [i \in 1..9 |-> R(0..20)], nan |-> R({0, 0, 1, 2}), track |-> R(BOOLEAN), seed |-> R(0..99999)]
Flux == \E n \in {R(1..4)} : c' = [kind |-> "flux", st |-> Star(0), n |-> n, shift |-> [i \in 1..n |-> [dx |-> R(-1..1), dy |-> R(-1..1)]], ph |-> Phot(0), fn |-> R(1..12), en |-> R(0..4), cc |-> R({0, 1, 2, 4}), vega |-> R(1..9), seed |-> R(0..99999)]
Gauss == c' = [kind |-> "gauss", n |-> R(1..2), w |-> R(19..25), x |-> R(36..56), y |-> R(36..56), amp |-> R(50..400), fw |-> R(20..45), b |-> R({0, 0, 3}), flags |-> R(0..4), fn |-> R(1..12), cc |-> R({0, 2}), seed |-> R(0..99999)]
Fcal == \E n \in {R(1..2)} : c' = [kind |-> "fcal", st |-> Star(0), n |-> n, set |-> R(BOOLEAN), ph |-> Phot(0), how |-> IF R(1..12) = 1 THEN "both" ELSE R({"flux", "irr"}), star |-> R({"Vega", "TYC 4433-1800-1", "109 Vir", "UCAC3 313-62260", IF R(1..3) = 1 THEN "Sirius" ELSE "Vega"}), sed |-> 100 * R(1..90), filter |-> R({"1F", "2F", "3C", "4B", "1A", IF R(1..3) = 1 THEN "9Z" ELSE "2F"}), fpam |-> R({"HOLE", "ND225", "ND475"}), seed |-> R(0..99999)]
Band == \E n \in {R({3, 3, 5})} : c' = [kind |-> "band", l |-> [i \in 1..n |-> 0], l0 |-> R(3..9), dl |-> R(1..3), tr |-> [i \in 1..n |-> R(0..5)], f |-> [i \in 1..n |-> R(1..9)], g |-> [i \in 1..n |-> R(1..9)], k |-> R(1..n)]
Curve == \E n \in {R({3, 5, 7})} : c' = [kind |-> "curve", n |-> n, w0 |-> R(50..60), tr |-> [i \in 1..n |-> R(0..100)], pts |-> [i \in 1..R(6..14) |-> [gap |-> R(2..12), v |-> R(1..50)]], start |-> R(-30..-5)]
Mag == c' = [kind |-> "mag", n |-> R(1..3), single |-> R(1..4) = 1, filter |-> Often("1F", {"2F", "3A", "4C"}), odd |-> R({"", "", "", "filter", "target", "star"}), vega |-> R(1..9), src |-> R(1..50), sf |-> R(1..12), file |-> R(BOOLEAN), shape |-> R(0..3), i |-> R(1..3)]
Zero == c' = [kind |-> "zero", st |-> Star(0), ph |-> Phot(0), vega |-> R(1..9), src |-> R(1..50), seed |-> R(0..99999)]
Color == c' = [kind |-> "color", n |-> R(1..2), filter |-> R({"1F", "2F", "3A", "4C", "2B"}), a |-> R(0..3), b |-> R(0..3), sa |-> R(1..20), sb |-> R(1..20)]
Nd == c' = [kind |-> "plane", nx |-> R(2..4), ny |-> R(2..4), x0 |-> R(-3..10), y0 |-> R(-3..10), step |-> R({2, 4}), m |-> [a |-> R(-20..60), b |-> R(-3..3), c |-> R(-3..3)], bumps |-> R({0, 0, 20}), qs |-> [i \in 1..R(1..6) |-> [x |-> R(-8..60), y |-> R(-8..60)]], mat |-> <<<<R(-2..2), R(-2..2)>>, <<R(-2..2), R(-2..2)>>>>, dh |-> R(-6..6), dv |-> R(-6..6), seed |-> R(0..99999)]
NdCal == \E nb \in {R(1..5)}, nd \in {R(0..2)} : c' = [kind |-> "ndcal", bright |-> [i \in 1..nb |-> [st |-> Star(0), star |-> R({1, 1, 2, 3}), loud |-> R({4, 4, IF R(1..2) = 1 THEN 5 ELSE 4, IF R(1..2) = 1 THEN 8 ELSE 12}), dh |-> R({-3, 0, 0, 4}), dv |-> R({-4, 0, 0, 3})]], dim |-> [i \in 1..nd |-> [st |-> Star(0), star |-> R(4..5)]],
            sed |-> [i \in 1..5 |-> R(8..16)], r2 |-> 2 * R(2..4) + 1, k |-> R({1, 2}), fn |-> R(1..9), given |-> nd = 0 \/ R(1..3) = 1, wrong |-> Often("", {"fpam", "cfam", "h", "v"}), i |-> R(1..5), order |-> R(0..99999), seed |-> R(0..99999)]
Init == c = <<>> /\ t = 0
Next == /\ t = 0 /\ t' = 1
        /\ CASE Kind = "conv" -> Conv [] Kind = "flux" -> Flux [] Kind = "gauss" -> Gauss [] Kind = "fcal" -> Fcal [] Kind = "band" -> Band [] Kind = "curve" -> Curve [] Kind = "mag" -> Mag [] Kind = "zero" -> Zero [] Kind = "color" -> Color [] Kind = "plane" -> Nd [] Kind = "ndcal" -> NdCal
Spec == Init /\ [][Next]_<<c, t>>
GPrint == t = 1 => PrintT("VJ " \o ToJson(c))
=============================================================================

-------------------------------- MODULE GenCt --------------------------------
EXTENDS CtOps, Json, Randomization, TLC
CONSTANT Kind
VARIABLES c, t
R(X) == RandomElement(X)
Mostly(x, X) == IF RandomElement(1..10) <= 6 THEN x ELSE RandomElement(X)
Star(lo) == [x |-> R(lo..40), y |-> R(lo..40)]
Names == {"1F", "2C", "3B", "4A"}
Sep == \E n \in {R(2..9)}, k \in {R(1..4)} :
       c' = [kind |-> "sep", star |-> Star(16), half |-> R({0, 1, 2}), off |-> IF R(1..2) = 1 THEN [x |-> R(0..60), y |-> R(0..60)] ELSE [x |-> 0, y |-> 0], hasoff |-> R(BOOLEAN),
             pts |-> [i \in 1..n |-> [x |-> R(-120..120), y |-> R(-120..120)]], seps |-> [i \in 1..k |-> R(0..140)], seed |-> R(0..9999)]
Near == \E n \in {R(2..9)} :
       c' = [kind |-> "near", star |-> Star(16), off |-> [x |-> R(0..60), y |-> R(0..60)], hasoff |-> R(BOOLEAN), pts |-> [i \in 1..n |-> [x |-> R(-48..48), y |-> R(-48..48)]],
             sep |-> R(0..12), roll |-> R({0, 90, 180, 270, 30, -45, 400}), quarter |-> R(-4..4), amp |-> R({5, 64, 1000}), seed |-> R(0..9999)]
Fpm == c' = [kind |-> "fpm", star |-> Star(16), off |-> [x |-> R(0..60), y |-> R(0..60)], hasoff |-> R(BOOLEAN), m |-> [i \in 1..2 |-> [j \in 1..2 |-> [k \in 1..2 |-> R(-64..64)]]],
             ct |-> [i \in 1..2 |-> [h |-> R(0..200), v |-> R(0..200)]], cor |-> [i \in 1..2 |-> [h |-> R(0..200), v |-> R(0..200)]], seed |-> R(0..9999)]
Interp == \E nr \in {R(2..4)}, na \in {R(2..4)}, nt \in {R(1..6)} :
       c' = [kind |-> "interp", star |-> Star(16), off |-> [x |-> R(0..60), y |-> R(0..60)], hasoff |-> R(BOOLEAN), logr |-> R(BOOLEAN), nr |-> nr, na |-> na,
             r0 |-> R(2..6), dr |-> R(1..4), az0 |-> R(-170..60), da |-> R({10, 15, 25, 35}), f |-> [a |-> R({20000, 30000}), b |-> R(-50..300), c |-> R(-10..18)],
             t |-> [i \in 1..nt |-> [how |-> R({"inside", "inside", "point", "last", "anywhere", "far", "close"}), i |-> R(1..nr), j |-> R(1..na), u |-> R(1..7), w |-> R(1..7), az |-> R(-179..180)]],
             form |-> R({"array", "list", "scalar"}), perm |-> R(0..9999), map |-> R({"no", "no", "map", "saved", "given"}), shift |-> R(BOOLEAN)]
Psf == \E nr \in {R(2..4)}, na \in {R(2..5)}, nt \in {R(1..5)} :
       c' = [kind |-> "psf", star |-> Star(16), off |-> [x |-> R(0..60), y |-> R(0..60)], hasoff |-> R(BOOLEAN), nr |-> nr, na |-> na, r0 |-> R(4..8), dr |-> R(2..4), az0 |-> R(-170..40), da |-> R({16, 20, 24}),
             t |-> [i \in 1..nt |-> [how |-> R({"near", "near", "half", "far", "close"}), i |-> R(1..nr), j |-> R(1..na), u |-> R(-4..4), w |-> R(-3..3)]],
             form |-> R({"array", "list", "scalar"}), perm |-> R(0..9999), shift |-> R(BOOLEAN)]
Make == \E n \in {R(2..6)} :
       c' = [kind |-> "make", filter |-> R(Names), roi |-> R({1, 2, 3, 3}), other |-> Mostly("", {"cfam", "nopupil", "nooff", "missing"}),
             fr |-> [i \in 1..n |-> [pupil |-> R(1..3) = 1, x |-> R(14..25), y |-> R(14..25), w |-> [k \in 1..8 |-> R(0..6)], peak |-> R(7..40), far |-> R(0..5), odd |-> R(0..5)]],
             seed |-> R(0..9999)]
Init == c = <<>> /\ t = 0
Next == /\ t = 0 /\ t' = 1
        /\ CASE Kind = "sep" -> Sep [] Kind = "near" -> Near [] Kind = "fpm" -> Fpm [] Kind = "interp" -> Interp [] Kind = "psf" -> Psf [] Kind = "make" -> Make
Spec == Init /\ [][Next]_<<c, t>>
GPrint == t = 1 => PrintT("VJ " \o ToJson(c))
=============================================================================

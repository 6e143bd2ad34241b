-------------------------------- MODULE GenPsf --------------------------------
EXTENDS PsfOps, Json, Randomization, TLC
CONSTANT Kind
VARIABLES c, t
R(X) == RandomElement(X)
Often(x, X) == IF RandomElement(1..10) <= 8 THEN x ELSE RandomElement(X)
Frame(i, cut) == [ref |-> R({0, 0, 1}), dx |-> R({-2, -1, -1, 0, 1, 2}), dy |-> R({-2, -1, 0, 1, 2}), roll |-> R({0, 90, 180, 270, 33, -45, 400}), flags |-> [k \in 1..R(0..3) |-> [i |-> R(0..99), f |-> R({1, 4, 32, 128})]], tag |-> R(1..99)]
Prep == \E n \in {R(1..5)}, m \in {R(1..3)}, b \in {R(1..3)} :
       c' = [kind |-> "prep", fr |-> [i \in 1..n |-> Frame(i, 0)], refs |-> [i \in 1..m |-> Frame(i, 0)], given |-> R(1..3) = 1, told |-> Often("", {"ADI", "RDI", "ADI+RDI", "ADI+RDI", "RDI", "SDI", "rdi"}),
             size |-> R({<<8, 8>>, <<10, 8>>, <<8, 12>>, <<12, 10>>, <<7, 7>>, <<9, 8>>}), crop |-> R({0, 2, 4, 4, 6}), basis |-> [i \in 1..b |-> R(1..20)], int |-> R(1..4) = 1, annuli |-> R(1..3), subs |-> R(1..3), move |-> R(1..3),
             prefix |-> R({"", "x", "CGI"}), outdir |-> R(1..4) # 1, wrong |-> Often("", {"scale", "cfam", "instr", "tel", "science"}), third |-> R(1..8) = 1, nans |-> R(0..4),
             core |-> (IF R(1..15) = 1 THEN "nocal" ELSE R({"yes", "no"})), off |-> [x |-> R(0..60), y |-> R(0..60)], hasoff |-> R(BOOLEAN), pts |-> [i \in 1..R(2..9) |-> [x |-> R(-120..120), y |-> R(-120..120)]], seed |-> R(0..9999)]
Real == \E n \in {R(1..3)}, m \in {R(0..2)} :
       c' = [kind |-> "real", n |-> n, m |-> IF n = 1 /\ m = 0 THEN 1 ELSE m, turn0 |-> R(0..3), back |-> R(BOOLEAN), pa |-> R(0..3), sep |-> R(5..7), dx |-> R(-1..1), dy |-> R(-1..1), basis |-> R({<<1>>, <<1, 2>>}), crop |-> R(BOOLEAN), seed |-> R(0..9999)]
Thr == \E n \in {R(1..3)}, b \in {R(1..2)}, s \in {R(1..2)} :
       c' = [kind |-> "thr", n |-> n, ref |-> R(BOOLEAN), rolls |-> [i \in 1..n |-> 90 * R(0..3)], basis |-> [i \in 1..b |-> R(1..9)], seps |-> R({<<9>>, <<18>>, <<9, 18>>, <<18, 9>>}), pas |-> R({<<0, 90, 180, 270>>, <<0, 180>>, <<90>>}),
             gain |-> [i \in 1..b |-> [near |-> R(200..1000), far |-> R(200..1000)]], cands |-> R({<<>>, <<>>, <<[s |-> 18, pa |-> 90]>>, <<[s |-> 9, pa |-> 180]>>, <<[s |-> 14, pa |-> 0], [s |-> 18, pa |-> 270]>>}), snr |-> R({200, 400}), dflt |-> R(1..5) = 1, annuli |-> R(1..3), subs |-> R(1..3), move |-> R(1..3), core |-> R(BOOLEAN), seed |-> R(0..9999)]
Noise == c' = [kind |-> "noise", w |-> R(8..13), h |-> R(8..13), nk |-> R(1..3), sx |-> R(12..28), sy |-> R(12..28), seps |-> [i \in 1..R(1..3) |-> R(4..20)], hw |-> R(3..9), cands |-> [i \in 1..R(0..2) |-> [s |-> R(4..24), k |-> R(0..3)]],
             pick |-> R({-1, -1, 0, 1, 2}), nans |-> R(0..4), vals |-> R({1, 3, 5}), seed |-> R(0..9999)]
Init == c = <<>> /\ t = 0
Next == /\ t = 0 /\ t' = 1
        /\ CASE Kind = "prep" -> Prep [] Kind = "real" -> Real [] Kind = "thr" -> Thr [] Kind = "noise" -> Noise
Spec == Init /\ [][Next]_<<c, t>>
GPrint == t = 1 => PrintT("VJ " \o ToJson(c))
=============================================================================

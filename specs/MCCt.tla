-------------------------------- MODULE MCCt --------------------------------
(* Lemmas about the lookups, for every small arrangement: some point always       *)
(* answers; the answer is the same whether the frame is whole or a cut-out that     *)
(* carries its offset; moving all mechanisms together moves nothing; folding an      *)
(* azimuth is idempotent and keeps those in range; a plane's value at a folded        *)
(* azimuth stays between the measured extremes; and a weighted centre lies inside      *)
(* the pixels it is taken from.                                                         *)
EXTENDS CtOps
CONSTANTS N, M
VARIABLES step
vars == step
G == 0..N
P == [x : G, y : G]
Pairs == {<<p, q>> : p \in P, q \in P}
Init == step = 0
Next == step < 1 /\ step' = step + 1
Spec == Init /\ [][Next]_vars
O == [x |-> 0, y |-> 0]
Answered == \A pq \in Pairs, c \in {[x |-> 0, y |-> 0], [x |-> 1, y |-> N]}, s \in 0..N : NearInSep(pq, c, s) # {} /\ NearInPlace(pq, c) # {}
Whole == \A st \in P, o \in P : Centre([x |-> st.x - o.x, y |-> st.y - o.y], o, 2) = Centre(st, O, 2)
SameAnswer == \A pq \in Pairs, o \in P, s \in 0..N : NearInSep(pq, Centre([x |-> 1 - o.x, y |-> 2 - o.y], o, 2), s) = NearInSep(pq, Centre([x |-> 1, y |-> 2], O, 2), s)
Mats == [1..2 -> [1..2 -> {-1, 0, 2}]]
Together == \A m \in Mats, a \in {[h |-> 3, v |-> -1], [h |-> 0, v |-> 0]}, b \in {[h |-> 1, v |-> 1], [h |-> 3, v |-> -1]}, d \in {1, 5} :
            /\ Moved(O, O, m, a, a) = O
            /\ Moved(O, O, m, [h |-> a.h + d, v |-> a.v + d], [h |-> b.h + d, v |-> b.v + d]) = Moved(O, O, m, a, b)
            /\ LET f == Moved(O, O, m, a, b) g == Moved(O, O, m, b, a) IN f.x = -g.x /\ f.y = -g.y
Folded == \A az \in -M..M, z \in -M..M, r \in 1..M : LET f == Fold(az, z, r) IN f \in 0..(r - 1) /\ Fold(f + z, z, r) = f /\ (az - z \in 0..(r - 1) => f = az - z) /\ Fold(az + r, z, r) = f
Between == \A b \in -2..2, c \in -2..2, az \in -M..M, r \in 1..M, u \in 0..3 :
           LET v == Affine([a |-> 0, b |-> b, c |-> c], u, Fold(az, 0, r))
               ext == {Affine([a |-> 0, b |-> b, c |-> c], x, y) : x \in {0, 3}, y \in {0, r}} IN
           (\E e \in ext : e <= v) /\ (\E e \in ext : e >= v)
Weights == {<<[x |-> 0, y |-> 0, v |-> a], [x |-> 2, y |-> 1, v |-> b], [x |-> 1, y |-> 3, v |-> c]>> : a \in 1..3, b \in 0..2, c \in 0..4}
Inside == \A w \in Weights, roi \in 1..3 : LET r == InRoi(w, roi) T == TotalOf(r) IN
          T > 0 /\ MomentX(r) \in 0..(2 * T) /\ MomentY(r) \in 0..(3 * T) /\ Rounded(MomentX(r), T) # {} /\ CoreSum(w) \in Peak(w)..TotalOf(w)
Roots == \A n \in 0..400 : Root(n) * Root(n) <= n /\ (Root(n) + 1) * (Root(n) + 1) > n
Exact == \A n \in {90000, 1000000, 576000000} : Root(n) * Root(n) = n
=============================================================================

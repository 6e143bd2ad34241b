---------------------------- MODULE MCLinearity ----------------------------
EXTENDS LinearityOps
CONSTANTS RVals, XVals, L
VARIABLES t, g, v, x, p
Init == /\ t \in [g : {<<1, 3>>, <<1, 3, 4>>}, c : {<<0, 2, 3>>, <<0, 1>>}, r : [1..3 -> [1..3 -> RVals]]]
        /\ g \in 0..5 /\ v \in -1..4
        /\ x = <<0>> /\ p = 1
InitX == /\ x \in UNION {[1..k -> XVals] : k \in 1..L} /\ p \in {1, 3, 7}
         /\ t = [g |-> <<1>>, c |-> <<1>>, r |-> <<1>>] /\ g = 0 /\ v = 0
InitAll == Init \/ InitX
Next == UNCHANGED <<t, g, v, x, p>>
tt == [t EXCEPT !.r = [i \in DOMAIN t.c |-> [j \in DOMAIN t.g |-> t.r[i][j]]]]
IsT == Len(t.g) > 1
MG == 2
MC == 2
\* at the nodes the interpolation returns the table; in between it stays between the corners
AtNodes == IsT => \A i \in DOMAIN t.c : \A j \in DOMAIN t.g : RelGain(tt, t.g[j], t.c[i], MG, MC) = MG * MC * t.r[i][j]
Bounded == IsT => LET vals == {t.r[i][j] : i \in DOMAIN t.c, j \in DOMAIN t.g} IN
           \A w \in {RelGain(tt, g, v, MG, MC)} : (\E a \in vals : MG * MC * a <= w) /\ (\E a \in vals : w <= MG * MC * a)
EdgeConstant == IsT => /\ RelGain(tt, g, -1, MG, MC) = RelGain(tt, g, t.c[1], MG, MC)
                       /\ RelGain(tt, 0, v, MG, MC) = RelGain(tt, t.g[1], v, MG, MC)
\* interpolating in the other order gives the same value
OrderFree == IsT => RelGain(tt, g, v, MG, MC) =
               Lin(g, t.g, [j \in DOMAIN t.g |-> Lin(v, t.c, [i \in DOMAIN t.c |-> t.r[i][j]], MC)], MG)
\* with q = 1 and 1 + p a power of two the recursion equals the double sum  sum_s p (1+p)^(s-r-1) x_s
RECURSIVE PowI(_, _)
PowI(b, n) == IF n = 0 THEN 1 ELSE b * PowI(b, n - 1)
Big == PowI(p + 1, 6)
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
ClosedForm == ~IsT => \A r \in DOMAIN x :
   Smear(x, r, p, 1, Big) = SumTo([s \in 1..r |-> p * x[s] * (Big \div PowI(p + 1, r - s + 1))], r)
\* the part of the smear of a constant scene approaches the scene from below
Constant == ~IsT => \A r \in DOMAIN x : LET c == [i \in DOMAIN x |-> 5] IN
   Smear(c, r, p, 1, Big) <= 5 * Big /\ (r > 1 => Smear(c, r, p, 1, Big) >= Smear(c, r - 1, p, 1, Big))
=============================================================================

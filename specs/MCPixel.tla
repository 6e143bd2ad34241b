------------------------------- MODULE MCPixel -------------------------------
(* Laws of the pixel operations on a small alphabet (S = 64, Q = 4).            *)
EXTENDS PixelOps
CONSTANTS FlagWords, Factors, Errs
Vals == {-192, 0, 64, 6400}
VARIABLES p, m, f, fe
Init == /\ p \in [v : Vals, e2 : {x * x : x \in Errs}, d : FlagWords]
        /\ m \in [v : Vals, e2 : {x * x : x \in Errs}, d : FlagWords]
        /\ f \in Factors /\ fe \in {0, 1, 2}
Next == UNCHANGED <<p, m, f, fe>>
Zero == [v |-> 0, e2 |-> 0, d |-> 0]
DarkNeutral == DarkSub(p, Zero) = p
DarkFlagsAccumulate == SubFlags(p.d, DarkSub(p, m).d) /\ SubFlags(m.d, DarkSub(p, m).d)
DarkErrGrows == DarkSub(p, m).e2 >= p.e2 /\ DarkSub(p, m).e2 >= m.e2
DarkAdditive == DarkSub(DarkSub(p, m), Zero) = DarkSub(p, m) /\ DarkSub(p, m).v + m.v = p.v
FlatUnity == FlatDiv(p, Q, 0) = p
FlatInvertible == Electrons(FlatDiv(p, f, 0), f, 0) = p            \* multiplying back by the flat
FlatErrGrows == FlatDiv(p, f, fe).e2 >= FlatDiv(p, f, 0).e2
DivideIsFlat == Divide(p, f) = FlatDiv(p, f, 0)
ScaleInverts == ScaleE2(DivideE2(p.e2, f), f) = p.e2
BadMarked == LET o == BadPix(p, m.d) IN
             /\ (o.v = NaNV) <=> (p.d # 0 \/ m.d # 0)
             /\ SubFlags(p.d, o.d) /\ (o.v = NaNV => BitOf(o.d, 1) = 1)
             /\ BadPix(BadPix(p, m.d), m.d) = o
             /\ (o.v # NaNV => o = p)
NanIdem == NanFlags(NanFlags(p, 4), 4) = NanFlags(p, 4)
FlagAfterNan == LET o == FlagNans(NanFlags(p, 4), 2) IN (o.v = NaNV) => BitOf(o.d, 1) = 1
=============================================================================

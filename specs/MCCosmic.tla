------------------------------ MODULE MCCosmic ------------------------------
(* Every row up to length N over dark / edge / saturated pixels, every minimum length. *)
EXTENDS CosmicOps
CONSTANT N, F
VARIABLES row, n
SatV == 3
PlatV == 2
Init == /\ \E k \in 1..N : row \in [1..k -> {0, 2, 3}]
        /\ n \in 1..F
Next == UNCHANGED <<row, n>>
Must == MustHeads(row, SatV, PlatV, n)
May == MayHeads(row, SatV, PlatV, n)
Found == Must \subseteq May
NoneWithoutSaturation == (\A i \in DOMAIN row : row[i] < SatV) => May = {}
\* a reported head is the start of a plateau, or the pixel after a dip of the running median
HeadsAreHeads == \A h \in May : h > Len(row) \/ IsHead(row, PlatV, h) \/ row[h] < PlatV
LongEnough == \A h \in Must : RunEnd(row, PlatV, h) - h + 1 >= n
Monotone == n > 1 => MustHeads(row, SatV, PlatV, n) \subseteq MustHeads(row, SatV, PlatV, n - 1)
BoxInside == \A h \in Must : \A b \in 0..2 : \A p \in Box(1, h, b, 1, 2, 1, Len(row)) : p[1] \in 1..2 /\ p[2] \in DOMAIN row
TailStarts == \A h \in Must : <<1, h>> \in TailPix(1, h, n, 0, Len(row), FALSE, 0)
WrapCount == \A h \in Must : Cardinality(TailPix(1, h, n, 3, Len(row), TRUE, 0)) = n + 4
=============================================================================

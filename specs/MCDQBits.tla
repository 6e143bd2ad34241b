------------------------------ MODULE MCDQBits ------------------------------
(* Every two-byte word is one initial state: packing inverts unpacking, the *)
(* least significant bit is last, and or/and behave as set union and        *)
(* intersection of the flags.                                               *)
EXTENDS DQBitsOps, TLC
VARIABLES a, b
Init == a \in 0..255 /\ b \in {0, 1, 2, 4, 6, 8, 16, 32, 64, 127, 128, 129, 170, 255}
Next == UNCHANGED <<a, b>>
Flags(v) == {k \in 0..7 : BitOf(v, k) = 1}
Inverse == Pack(Unpack(<<a, b>>)) = <<a, b>>
LsbLast == Unpack(<<a, b>>)[16] = b % 2
Union == Flags(Or(a, b)) = Flags(a) \cup Flags(b) /\ Flags(And(a, b)) = Flags(a) \cap Flags(b)
Sub == SubFlags(a, b) <=> Flags(a) \subseteq Flags(b)
=============================================================================

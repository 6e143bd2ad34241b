----------------------------- MODULE DQBitsOps -----------------------------
(* Data-quality flag words.  A 64-bit word is a sequence of eight bytes,    *)
(* most significant first (TLC integers have 32 bits); its unpacked form    *)
(* is a sequence of 64 bits, most significant first.                        *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)

BitOf(v, k) == (v \div Pow2(k)) % 2                        \* bit k of a small non-negative integer

Unpack(bytes) == [i \in 1..(8 * Len(bytes)) |-> BitOf(bytes[((i - 1) \div 8) + 1], 7 - ((i - 1) % 8))]

RECURSIVE Value(_)
Value(bits) == IF bits = <<>> THEN 0 ELSE 2 * Value(SubSeq(bits, 1, Len(bits) - 1)) + bits[Len(bits)]

Pack(bits) == [b \in 1..(Len(bits) \div 8) |-> Value(SubSeq(bits, 8 * b - 7, 8 * b))]

\* the documented flags (README / data.py) in bit order
FlagNames == <<"bad_pixel_unspecified", "data_replaced_by_filled_value", "bad_pixel", "hot_pixel", "not_used",
               "full_well_saturated_pixel", "non_linear_pixel", "pixel_affected_by_cosmic_ray", "TBD">>

\* bitwise or of small non-negative integers
RECURSIVE Or(_, _)
Or(a, b) == IF a = 0 THEN b ELSE IF b = 0 THEN a
            ELSE 2 * Or(a \div 2, b \div 2) + (IF a % 2 = 1 \/ b % 2 = 1 THEN 1 ELSE 0)
RECURSIVE And(_, _)
And(a, b) == IF a = 0 \/ b = 0 THEN 0
             ELSE 2 * And(a \div 2, b \div 2) + (IF a % 2 = 1 /\ b % 2 = 1 THEN 1 ELSE 0)
OrSeq(s) == IF s = <<>> THEN 0 ELSE LET RECURSIVE F(_)
                                        F(i) == IF i > Len(s) THEN 0 ELSE Or(s[i], F(i + 1)) IN F(1)
\* every bit of a is a bit of b
SubFlags(a, b) == Or(a, b) = b
=============================================================================

------------------------------ MODULE MCEmGain ------------------------------
EXTENDS EmGainOps, FiniteSets
VARIABLES h, o
Gains == {1, 2, 7, 100}
Hdr == [m : Gains \cup {NoGain}, a : Gains \cup {0, -1}, c : Gains]
Init == h \in Hdr /\ o \in Hdr
Next == UNCHANGED <<h, o>>
Positive == EmGain(h) \in Gains
MeasuredWins == h.m # NoGain => EmGain(h) = EmGain([o EXCEPT !.m = h.m])
AppliedNext == (h.m = NoGain /\ h.a > 0) => EmGain(h) = EmGain([o EXCEPT !.m = NoGain, !.a = h.a])
CommandedLast == (h.m = NoGain /\ h.a <= 0) => EmGain(h) = h.c
=============================================================================

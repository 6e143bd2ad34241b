------------------------------ MODULE EmGainOps ------------------------------
(* The EM gain of one frame.  h = [m |-> .., a |-> .., c |-> ..]: measured,     *)
(* applied and commanded gain; NoGain stands for a missing measured gain.       *)
EXTENDS Integers, Sequences
NoGain == -1000000005
EmGain(h) == IF h.m # NoGain THEN h.m ELSE IF h.a > 0 THEN h.a ELSE h.c
=============================================================================

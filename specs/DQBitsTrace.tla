---------------------------- MODULE DQBitsTrace ----------------------------
EXTENDS TraceBase, DQBitsOps

\* e.words: the flag words (eight bytes each); e.bits: what unpacking returned for each;
\* e.packed: what packing e.bits again returned; e.rawbits/e.rawpacked: packing arbitrary bits
TheFails(s, e) ==
  CASE e.op = "unpack" ->
         Clause("Q02_UnpackShape", e.exc = "" /\ e.shapeok)
         \cup (IF e.exc # "" \/ ~e.shapeok THEN {} ELSE
               Clause("Q02_UnpackBits", \A i \in DOMAIN e.words : e.bits[i] = Unpack(e.words[i]))
               \cup Clause("Q02_PackInverts", \A i \in DOMAIN e.words : e.packed[i] = e.words[i]))
    [] e.op = "pack" -> Clause("Q02_PackBits", e.exc = "" /\ e.packed = [i \in DOMAIN e.bits |-> Pack(e.bits[i])])
    [] e.op = "maps" ->
         LET N == Len(FlagNames) IN
         Clause("Q02_FlagToBit", e.flagtobit = [n \in ToSet(FlagNames) |-> CHOOSE i \in 0..(N - 1) : FlagNames[i + 1] = n])
         \cup Clause("Q02_BitToFlag", e.bittoflag = FlagNames)
         \cup Clause("Q02_FlagToValue", e.flagtovalue = [n \in ToSet(FlagNames) |-> Pow2(CHOOSE i \in 0..(N - 1) : FlagNames[i + 1] = n)])
         \cup Clause("Q02_ValueToFlag", e.valuetoflag = FlagNames)
         \cup Clause("Q02_MapSizes", e.sizes = <<N, N, N, N>>)

TheStart(tr) == 0
TheNext(s, e) == s + 1
=============================================================================

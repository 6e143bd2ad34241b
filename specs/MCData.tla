------------------------------- MODULE MCData -------------------------------
(* Exhaustive check of the data model: links hold, copies are independent,    *)
(* and an operation on one dataset changes no value seen through another one  *)
(* that it shares no frame with.                                              *)
EXTENDS DataOps, TLC
CONSTANTS MaxOps, MaxDs, Tracks
VARIABLES s, n, last
v == <<s, n, last>>

Ops(st) ==
  LET DS == DOMAIN st.ds
      At(d) == DOMAIN st.ds[d].fr
      Per(d, val) == [i \in At(d) |-> val + i] IN
  {o \in
     ({[op |-> "copy", d |-> d] : d \in DS} \cup {[op |-> "headercopy", d |-> d] : d \in DS}
      \cup {[op |-> "take", idx |-> <<<<d, i>>>>, d |-> 0] : d \in DS, i \in 1..2}
      \cup {[op |-> "take", idx |-> <<<<1, 1>>, <<d, i>>>>, d |-> 0] : d \in DS, i \in 1..2}
      \cup {[op |-> "cube", d |-> d, i |-> i, c |-> c, v |-> 7] : d \in DS, i \in 1..2, c \in {"d", "e"}}
      \cup {[op |-> "frame", d |-> d, i |-> i, c |-> c, v |-> 8] : d \in DS, i \in 1..2, c \in {"q", "e"}}
      \cup {[op |-> "hdr", d |-> d, i |-> i, c |-> "ext", v |-> 9] : d \in DS, i \in 1..2}
      \cup {[op |-> "update", d |-> d, nd |-> Per(d, 20), nq |-> <<>>, ne |-> [i \in At(d) |-> <<i>>], v |-> 3] : d \in DS}
      \cup {[op |-> "adderr", d |-> d, t |-> Per(d, 1), id |-> 5, track |-> t] : d \in DS, t \in Tracks}
      \cup {[op |-> "rescale", d |-> d, t |-> Per(d, 1), id |-> 6, track |-> TRUE] : d \in DS}
      \cup {[op |-> "frameadd", d |-> d, i |-> i, v |-> 4, id |-> 7, track |-> t] : d \in DS, i \in 1..2, t \in Tracks}
      \cup {[op |-> "framerescale", d |-> d, i |-> i, v |-> 2, id |-> 8, track |-> TRUE] : d \in DS, i \in 1..2})
   : /\ (o.op \in {"copy", "headercopy", "take"} => Len(st.ds) < MaxDs)
     /\ (o.op \in {"cube", "frame", "hdr", "frameadd", "framerescale"} => o.i \in At(o.d))
     /\ (o.op = "take" => \A x \in DOMAIN o.idx : o.idx[x][2] \in At(o.idx[x][1]))
     /\ Enabled(st, o)}

Two == [op |-> "new", fr |-> <<[d |-> 1, e |-> <<1>>, q |-> 1, h |-> 1], [d |-> 2, e |-> <<2>>, q |-> 2, h |-> 2]>>]
Init == s = Apply(Empty, Two) /\ n = 0 /\ last = [op |-> "new", d |-> 1]
Next == n < MaxOps /\ \E o \in Ops(s) : s' = Apply(s, o) /\ n' = n + 1 /\ last' = o
Spec == Init /\ [][Next]_v

InvLinked == Linked(s)
InvApart == Apart(s)
InvErr == CombinedTop(s)
\* what is seen of frame f
Seen(st, f) == LET x == st.fr[f] IN
  <<IF x.d = 0 THEN 0 ELSE st.dst[x.d], IF x.e = 0 THEN <<>> ELSE st.est[x.e], IF x.q = 0 THEN 0 ELSE st.qst[x.q], Hdr(x)>>
Touched(st, o) == IF o.op \in {"cube", "frame", "hdr", "frameadd", "framerescale"} THEN {st.ds[o.d].fr[o.i]}
                  ELSE IF o.op \in {"update", "adderr", "rescale"} THEN {st.ds[o.d].fr[i] : i \in DOMAIN st.ds[o.d].fr} ELSE {}
OthersUnchanged == [][\A f \in DOMAIN s.fr : f \notin Touched(s, last') => Seen(s', f) = Seen(s, f)]_v
\* an edit through the cube is an edit of the frame
CubeIsFrame == [][last'.op = "cube" /\ last'.c = "d" => s'.dst[s'.fr[s.ds[last'.d].fr[last'.i]].d] = 7]_v
=============================================================================

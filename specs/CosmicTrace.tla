----------------------------- MODULE CosmicTrace -----------------------------
(* Binds CosmicOps to l1_to_l2a.detect_cosmic_rays.  e.frames[i] = [rows |->      *)
(* values x S, d |-> flags by row, h |-> gains]; e.out[i] = [d, pp, em, sat].     *)
(* thresholds are given in eighths, wells in DN x S.                              *)
EXTENDS TraceBase, CosmicOps, EmGainOps
Q == INSTANCE DQBitsOps
Bit(v, b) == Q!BitOf(v, b) = 1
Less(v) == v - (IF Bit(v, 5) THEN 32 ELSE 0) - (IF Bit(v, 7) THEN 128 ELSE 0)     \* the other flags

\* footprints of frame i (x8: thresholds are in eighths)
Foot(e, i, must) ==
  LET f == e.frames[i]
      g == e.geom
      rows8 == [r \in DOMAIN f.rows |-> [c \in DOMAIN f.rows[r] |-> 8 * f.rows[r][c]]]
      x == IF must \/ ~e.full THEN 0 ELSE 1             \* full frames: one more row and column is tolerated
  IN IF must
     THEN Footprint(rows8, e.em * e.sat8, e.em * e.plat8, e.n, e.tail, e.box, g[1], g[2], g[3], g[4], e.full, 1, MustHeads)
     ELSE Footprint(rows8, e.em * e.sat8, e.em * e.plat8, e.n, e.tail, e.box, g[1], g[2] + x, g[3], g[4] + x, e.full, 0, MayHeads)

FrameFails(e, i) ==
  LET f == e.frames[i]
      o == e.out[i]
      lim == SatLimit(e.pp, e.em, EmGain(f.h)) * e.sat8                     \* x8
      Must == Foot(e, i, TRUE)
      May == Foot(e, i, FALSE)
      Pix == {<<r, c>> : r \in DOMAIN f.rows, c \in DOMAIN f.rows[1]}
  IN Clause("S03_Saturation", \A p \in Pix : Bit(o.d[p[1]][p[2]], 5) <=> (Bit(f.d[p[1]][p[2]], 5) \/ 8 * f.rows[p[1]][p[2]] >= lim))
     \cup Clause("S03_CosmicMissed", \A p \in Pix : (Bit(f.d[p[1]][p[2]], 7) \/ p \in Must) => Bit(o.d[p[1]][p[2]], 7))
     \cup Clause("S03_CosmicSpurious", \A p \in Pix : Bit(o.d[p[1]][p[2]], 7) => (Bit(f.d[p[1]][p[2]], 7) \/ p \in May))
     \cup Clause("S03_OtherFlags", \A p \in Pix : Less(o.d[p[1]][p[2]]) = Less(f.d[p[1]][p[2]]))
     \cup Clause("S03_Recorded", o.sat = lim /\ o.pp = e.ppe /\ o.em = e.eme)

TheFails(s, e) ==
  IF e.exc # "" \/ Len(e.out) # Len(e.frames) THEN {"S03_Accepted"}
  ELSE UNION {FrameFails(e, i) : i \in DOMAIN e.frames}
TheStart(tr) == 0
TheNext(s, e) == s + 1
=============================================================================

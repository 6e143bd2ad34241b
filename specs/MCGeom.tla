------------------------------- MODULE MCGeom -------------------------------
(* Every small frame type in which prescan, image and serial overscan share  *)
(* the columns in either order and the parallel overscan lies on either side. *)
EXTENDS GeomOps, TLC
VARIABLE g
CONSTANTS N
Init == \E R \in 3..N, C \in 4..(N + 1), pw, sw \in 1..2, ph \in 1..2, up, left \in BOOLEAN, mr, mc \in 0..1 :
          LET iw == C - pw - sw
              ih == R - ph
              ic == IF left THEN pw ELSE sw
              ir == IF up THEN 0 ELSE ph IN
          /\ iw > mc /\ ih > mr
          /\ g = [R |-> R, C |-> C,
                  image |-> [r |-> ir + mr, c |-> ic + mc, h |-> ih - mr, w |-> iw - mc],
                  prescan |-> [r |-> 0, c |-> IF left THEN 0 ELSE sw + iw, h |-> R, w |-> pw],
                  ser |-> [r |-> 0, c |-> IF left THEN pw + iw ELSE 0, h |-> R, w |-> sw],
                  par |-> [r |-> IF up THEN ih ELSE 0, c |-> ic, h |-> ph, w |-> iw],
                  st |-> IF left THEN 0 ELSE sw + iw, end |-> (IF left THEN 0 ELSE sw + iw) + 1]
Next == UNCHANGED g
Formed == WellFormed(g)
\* the imaging area is exactly the cells outside every virtual region's rows or columns
ImagingIsRest ==
  CellsOf(g, Imaging(g)) = {x \in Cells(g) : /\ ~(x[2] >= g.prescan.c /\ x[2] < g.prescan.c + g.prescan.w)
                                             /\ ~(x[2] >= g.ser.c /\ x[2] < g.ser.c + g.ser.w)
                                             /\ ~(x[1] >= g.par.r /\ x[1] < g.par.r + g.par.h)}
ImagingHoldsImage == CellsOf(g, g.image) \subseteq CellsOf(g, Imaging(g)) /\ Contains(Imaging(g), g.image)
ImagingIsReal == \A q \in {g.prescan, g.ser, g.par} : CellsOf(g, Imaging(g)) \cap CellsOf(g, q) = {} /\ Disjoint(Imaging(g), q)
=============================================================================

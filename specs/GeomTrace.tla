------------------------------ MODULE GeomTrace ------------------------------
(* Binds GeomOps to corgidrp.detector and to prescan bias subtraction.        *)
(* A full frame is observed through the pattern Pix(r, c): a returned window   *)
(* is described by its shape and by whether every pixel is the one at the      *)
(* window's place (win = [r, c, h, w] of the pattern found, or h = 0).         *)
EXTENDS TraceBase, GeomOps

Win(e) == e.exc = "" /\ e.win = e.reg

GeomFails(e) ==
  LET g == e.g IN
  CASE e.op = "shipped" ->
         Clause("S10_ShippedGeometry", WellFormed(g))
         \cup Clause("S10_ImagingContainsImage", Contains(Imaging(g), g.image))
         \cup Clause("S10_ImagingExcludesVirtual", \A q \in {g.prescan, g.par, g.ser} : Disjoint(Imaging(g), q))
         \cup Clause("S10_ReliablePrescan", e.rel = [r |-> g.prescan.r, c |-> g.st, h |-> g.prescan.h, w |-> g.end - g.st])
         \cup Clause("S10_Halves", e.halves = <<>> \/
                (/\ e.halves[1].r = g.image.r /\ e.halves[1].h + e.halves[2].h = g.image.h
                 /\ e.halves[2].r = g.image.r + e.halves[1].h
                 /\ \A i \in 1..2 : e.halves[i].c = g.image.c /\ e.halves[i].w = g.image.w))
    [] e.op = "slice" -> Clause("S10_SliceIsRegion", Win(e))
    [] e.op = "unpack" -> Clause("S10_UnpackGeom", e.exc = "" /\ e.win = e.reg)
    [] e.op = "imaging" -> Clause("S10_ImagingGeom", e.exc = "" /\ e.geom = Imaging(g))
                           \cup Clause("S10_ImagingSlice", e.exc = "" /\ e.win = Imaging(g))
                           \cup Clause("S10_GeometryUntouched", e.untouched)
    [] e.op = "embed" -> Clause("S10_EmbedPlaces", e.exc = "" /\ e.win = e.reg /\ e.shape = <<g.R, g.C>>)
                         \cup Clause("S10_EmbedPads", e.exc = "" /\ e.padok)
                         \cup Clause("S10_EmbedSliceInverse", e.exc = "" /\ e.inverse)
    [] e.op = "embedbad" -> Clause("S10_MisfitRejected", e.exc # "")

\* ---------------------------------------------------- bias subtraction
\* e.px: input full frame (sequence of rows), e.d: flags, e.e0: error layers (values, x2)
\* observed: e.v4 = 4 x data, e.s2 = squared combined error x 4 n^3, e.layers = other layers x2,
\* e.dqo, e.bias4 = 4 x stored bias; e.off4 = 4 x bias offset, e.oe2 = 2 x its error
BiasFails(e) ==
  LET g == e.g
      a == Area(g, e.mode)
      n == g.end - g.st
      n3 == n * n * n
      Row(i) == e.px[a.r + i]
      pre(i) == [k \in 1..n |-> Row(i)[g.st + k]]
      B4(i) == 2 * Median2(pre(i)) - e.off4
      V4(i, j) == 4 * Row(i)[a.c + j] - B4(i)
      step2(i) == 4 * VarN2(pre(i)) + e.oe2 * e.oe2 * n3         \* this step's error^2 x 4 n^3
      S2(i, j) == e.err[1][a.r + i][a.c + j] * e.err[1][a.r + i][a.c + j] * n3 + step2(i)
      L == Len(e.err)
      NL == IF e.track THEN L + 1 ELSE L
  IN
  IF ~e.valid THEN Clause("S02_Rejected", e.exc # "")
  ELSE IF e.exc # "" THEN {"S02_NoError"}
  ELSE IF e.shape # <<a.h, a.w>> THEN {"S02_Shape_" \o e.mode}
  ELSE Clause("S02_Data_" \o e.mode, \A i \in 1..a.h : \A j \in 1..a.w : e.v4[i][j] = V4(i, j))
       \cup Clause("S02_Flags_" \o e.mode, \A i \in 1..a.h : \A j \in 1..a.w : e.dqo[i][j] = e.d[a.r + i][a.c + j])
       \cup Clause("S02_Error_" \o e.mode, \A i \in 1..a.h : \A j \in 1..a.w : Near(e.s2[i][j], S2(i, j), 1))
       \cup Clause("S02_ErrorLayers", e.nlayers = NL)
       \cup Clause("S02_OtherLayersCut", e.nlayers # NL \/
              \A l \in 2..L : \A i \in 1..a.h : \A j \in 1..a.w : e.layers[l - 1][i][j] = e.err[l][a.r + i][a.c + j])
       \cup Clause("S02_TrackedTerm", ~e.track \/ e.nlayers # NL \/
              \A i \in 1..a.h : \A j \in 1..a.w : Near(e.own2[i][j], step2(i), 1))
       \cup Clause("S02_StoredBias", Len(e.bias4) = a.h /\ \A i \in 1..a.h : e.bias4[i] = B4(i))
       \cup Clause("S02_HeaderShape", e.naxis = <<a.w, a.h>>)

\* large frames of the shipped types are sampled: pixel (r, c) is Pix(r, c), reliable prescan of row r is Base(r)
Pix(r, c) == (3 * r + 5 * c) % 1009
Base(r) == (7 * r) % 97
BigFails(e) ==
  LET a == Area(e.g, e.mode) IN
  IF e.exc # "" THEN {"S02_NoError"}
  ELSE IF e.shape # <<a.h, a.w>> THEN {"S02_Shape_" \o e.mode}
  ELSE Clause("S02_Data_" \o e.mode, \A k \in DOMAIN e.smp :
                LET x == e.smp[k] IN x[3] = (IF a.c + x[2] >= e.g.st /\ a.c + x[2] < e.g.end THEN 0
                                             ELSE Pix(a.r + x[1], a.c + x[2]) - Base(a.r + x[1])))
       \cup Clause("S02_Flags_" \o e.mode, \A k \in DOMAIN e.smp : e.smp[k][4] = (a.r + e.smp[k][1] + a.c + e.smp[k][2]) % 256)
       \cup Clause("S02_StoredBias", e.biaslen = a.h /\ \A k \in DOMAIN e.smp : e.smp[k][5] = Base(a.r + e.smp[k][1]))

TheFails(s, e) == IF e.op = "bias" THEN BiasFails(e) ELSE IF e.op = "bigbias" THEN BigFails(e) ELSE GeomFails(e)
TheStart(tr) == 0
TheNext(s, e) == s + 1
=============================================================================

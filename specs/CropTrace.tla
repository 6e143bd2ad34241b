------------------------------ MODULE CropTrace ------------------------------
(* Binds CropOps to l3_to_l4.crop.  The state is the observed list of frames: *)
(* window [x, y, w, h], star, ref (primary and extension header), det.         *)
EXTENDS TraceBase, CropOps

None == NAN
SizeOf(e, f, i) == IF e.size[i] = None THEN 60 ELSE e.size[i]
CentreOf(e, f, i) == IF e.centre[i] = None THEN f.star[i] ELSE e.centre[i]
BadSize(e) == \E i \in 1..2 : e.size[i] # None /\ e.size[i] % 2 # 0
Undefined(e, f) == (e.size[1] = None /\ ~f.nfov) \/ (e.centre[1] = None /\ f.star[1] = None)
DimOf(f, i) == IF i = 1 THEN f.w ELSE f.h
Possible(e, f, i) == {k \in Firsts(CentreOf(e, f, i), SizeOf(e, f, i), DimOf(f, i)) : Inside(k, SizeOf(e, f, i), DimOf(f, i))}
Certain(e, f, i) == \A k \in Firsts(CentreOf(e, f, i), SizeOf(e, f, i), DimOf(f, i)) : Inside(k, SizeOf(e, f, i), DimOf(f, i))

MustFail(e, s) == BadSize(e) \/ \E k \in DOMAIN s : Undefined(e, s[k]) \/ \E i \in 1..2 : Possible(e, s[k], i) = {}
MustPass(e, s) == ~MustFail(e, s) /\ \A k \in DOMAIN s : \A i \in 1..2 : Certain(e, s[k], i)

Shift(p, k) == IF p = None THEN None ELSE p - 4 * k
FrameOK(e, f, g) ==
  LET ox == g.x - f.x
      oy == g.y - f.y IN
  Clause("S09_Window", g.ok /\ g.w = SizeOf(e, f, 1) /\ g.h = SizeOf(e, f, 2)
                       /\ ox \in Possible(e, f, 1) /\ oy \in Possible(e, f, 2))
  \cup Clause("S09_ErrorsCutAlike", g.errok)
  \cup Clause("S09_FlagsCutAlike", g.dqok)
  \cup Clause("S09_StarLocation", g.star = <<Shift(f.star[1], ox), Shift(f.star[2], oy)>>)
  \cup Clause("S09_ReferencePixel", g.refp = <<Shift(f.refp[1], ox), Shift(f.refp[2], oy)>>
                                    /\ g.refe = <<Shift(f.refe[1], ox), Shift(f.refe[2], oy)>>)
  \cup Clause("S09_DetectorOffset", g.det = <<f.det[1] + ox, f.det[2] + oy>>)
  \cup Clause("S09_SizeInHeader", g.naxis = <<g.w, g.h>>)
  \cup Clause("S09_FileName", g.name = f.name)

TheFails(s, e) ==
  Clause("S09_InputUnchanged", e.inputok)
  \cup (IF MustFail(e, s) THEN Clause("S09_Rejected", e.exc # "")
        ELSE IF e.exc # "" THEN Clause("S09_Accepted", ~MustPass(e, s))
        ELSE IF Len(e.fr) # Len(s) THEN {"S09_FrameCount"}
        ELSE UNION {FrameOK(e, s[k], e.fr[k]) : k \in DOMAIN s})
TheStart(tr) == tr.meta.start
TheNext(s, e) == IF e.exc # "" THEN s ELSE e.fr
=============================================================================

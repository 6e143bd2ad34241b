----------------------------- MODULE RotTrace -----------------------------
EXTENDS TraceBase, RotOps
\* e: [rows, cols, cx, cy (half pixels), mode, a, d, od, err (layers), oerr, q, oq, cd, ocd, ...]; images are flat, row by row;
\* pixel values are integers times e.sc
Px(img, x, y, cols) == img[y * cols + x + 1]
CX(e) == IF e.mode = "given" THEN e.cx ELSE IF e.mode = "star" /\ e.hasstar THEN e.cx ELSE Centre(e.cols)
CY(e) == IF e.mode = "given" THEN e.cy ELSE IF e.mode = "star" /\ e.hasstar THEN e.cy ELSE Centre(e.rows)

\* an interpolated image: exact where the source is a pixel of the input's interior, linear inside a ramp, blank outside
ImageOk(e, in, out) ==
  LET cx == CX(e) cy == CY(e) d == e.a.d IN
  \A x \in 0..(e.cols - 1), y \in 0..(e.rows - 1) :
    LET sx == SrcX(x, y, cx, cy, e.a) sy == SrcY(x, y, cx, cy, e.a) v == Px(out, x, y, e.cols)
        kx == sx \div (2 * d) ky == sy \div (2 * d) IN
    IF e.kind = "ramp"
    THEN Interior(sx, d, e.cols, 6) /\ Interior(sy, d, e.rows, 6) =>
           \* value of the ramp at the source, in units of 1/(2d)
           Near(2 * d * v, e.ramp[1] * sx * e.sc + e.ramp[2] * sy * e.sc + 2 * d * (in[1] * e.sc), (2 * d * e.sc) \div 50)
    ELSE IF ~(OnPixel(sx, d) /\ OnPixel(sy, d)) THEN TRUE
    ELSE IF Inside(kx, e.cols) /\ Inside(ky, e.rows)
         THEN Near(v, Px(in, kx, ky, e.cols) * e.sc, 2)
              \/ (v = NAN /\ (kx \in {0, e.cols - 1} \/ ky \in {0, e.rows - 1}))     \* on the outermost pixels rounding decides
         ELSE v = NAN
FlagsOk(e) ==
  LET cx == CX(e) cy == CY(e) d == e.a.d IN
  \A x \in 0..(e.cols - 1), y \in 0..(e.rows - 1) :
    LET sx == SrcX(x, y, cx, cy, e.a) sy == SrcY(x, y, cx, cy, e.a) kx == Nearest(sx, d) ky == Nearest(sy, d)
        v == Px(e.oq, x, y, e.cols) IN
    IF Tie(sx, d) \/ Tie(sy, d) THEN TRUE
    ELSE v = IF Inside(kx, e.cols) /\ Inside(ky, e.rows) THEN Px(e.q, kx, ky, e.cols) ELSE 0

TheFails(s, e) ==
  IF e.exc # "" THEN {"S11_Works"}
  ELSE Clause("S11_Shape", e.shapeok)
       \cup (IF ~e.shapeok THEN {} ELSE
             Clause("S11_Data", ImageOk(e, e.d, e.od))
             \cup Clause("S11_Errors", Len(e.oerr) = Len(e.err) /\ \A k \in DOMAIN e.err : ImageOk(e, e.err[k], e.oerr[k]))
             \cup Clause("S11_Flags", FlagsOk(e)))
       \cup (IF ~e.wcs THEN Clause("S11_WcsAlone", e.ocd = e.cd)
             ELSE Clause("S11_NorthUp", Near(e.ocd[2], 0, 2) /\ e.ocd[4] > 0)
                  \cup Clause("S11_EastLeft", Near(e.ocd[3], 0, 2) /\ e.ocd[1] < 0)
                  \cup Clause("S11_Scale", Near(e.ocd[1], -e.scale, 3) /\ Near(e.ocd[4], e.scale, 3)))
TheStart(tr) == 0
TheNext(s, e) == s + 1
=============================================================================

----------------------------- MODULE PixelTrace -----------------------------
(* Binds PixelOps to the pixelwise step functions.  A frame is                 *)
(* [v |-> values x S, e2 |-> per layer squared errors x S*S, d |-> flags, ...]. *)
EXTENDS TraceBase, EmGainOps
SS == 64
QQ == 4
P == INSTANCE PixelOps WITH S <- SS, Q <- QQ

Px(f, p) == [v |-> f.v[p], e2 |-> f.e2[1][p], d |-> f.d[p]]
Pixels(f) == DOMAIN f.v
\* every pixel of every frame of the output satisfies R(input pixel, output pixel, frame number, pixel number)
All(e, R(_, _, _, _)) == \A i \in DOMAIN e.frames : \A p \in Pixels(e.frames[i]) : R(Px(e.frames[i], p), Px(e.out[i], p), i, p)
Others(e, R(_, _, _)) ==      \* every further error layer
  \A i \in DOMAIN e.frames : /\ Len(e.out[i].e2) = Len(e.frames[i].e2)
                             /\ \A y \in 2..Len(e.frames[i].e2) : \A p \in Pixels(e.frames[i]) : R(e.frames[i].e2[y][p], e.out[i].e2[y][p], i)
Shape(e) == Len(e.out) = Len(e.frames) /\ \A i \in DOMAIN e.frames : Len(e.out[i].v) = Len(e.frames[i].v)
HdrAll(e, k, x) == \A i \in DOMAIN e.out : e.out[i].hdr[k] = x

\* ------------------------------------------------------------------ dark
DarkRejects(e) ==
  \/ \E i \in DOMAIN e.frames : e.frames[i].set # e.frames[1].set
  \/ e.dark.type # "Dark"
  \/ e.dark.pc # "analog master dark"
  \/ e.dark.set # e.frames[1].set
DarkFails(e) ==
  IF DarkRejects(e) THEN Clause("S04_DarkRejected", e.exc # "")
  ELSE IF e.exc # "" \/ ~Shape(e) THEN {"S04_DarkAccepted"}
  ELSE LET W(p) == P!DarkSub([v |-> 0, e2 |-> 0, d |-> 0], Px(e.dark, p)) IN
       Clause("S04_DarkData", All(e, LAMBDA a, b, i, p : b.v = P!DarkSub(a, Px(e.dark, p)).v))
       \cup Clause("S04_DarkError", All(e, LAMBDA a, b, i, p : Near(b.e2, P!DarkSub(a, Px(e.dark, p)).e2, 1)))
       \cup Clause("S04_DarkFlags", All(e, LAMBDA a, b, i, p : b.d = P!DarkSub(a, Px(e.dark, p)).d))

\* ------------------------------------------------------------------ flat
FlatFails(e) ==
  LET f == e.flat
      D(a, p) == P!FlatDiv(a, f.f[p], f.fe[p]) IN
  IF e.exc # "" \/ ~Shape(e) THEN {"S04_FlatAccepted"}
  ELSE Clause("S04_FlatData", All(e, LAMBDA a, b, i, p : P!FlatBad(f.f[p]) \/ b.v = D(a, p).v))
       \cup Clause("S04_FlatError", All(e, LAMBDA a, b, i, p : P!FlatBad(f.f[p]) \/ Near(b.e2, D(a, p).e2, 1)))
       \cup Clause("S04_FlatFlags", All(e, LAMBDA a, b, i, p : b.d = IF P!FlatBad(f.f[p]) THEN P!Or(a.d, 4) ELSE a.d))

\* ------------------------------------------------------------------ unit conversions
ElectronFails(e) ==
  IF e.exc # "" \/ ~Shape(e) THEN {"S05_ElectronsAccepted"}
  ELSE Clause("S05_ElectronsData", All(e, LAMBDA a, b, i, p : b.v = P!Electrons(a, e.k, e.kerr).v /\ b.d = a.d))
       \cup Clause("S05_ElectronsError", All(e, LAMBDA a, b, i, p : Near(b.e2, P!Electrons(a, e.k, e.kerr).e2, 1)))
       \cup Clause("S05_ElectronsLayers", Others(e, LAMBDA x, y, i : y = P!ScaleE2(x, e.k)))
       \cup Clause("S05_ElectronsUnit", HdrAll(e, "bunit", "detected EM electrons"))
       \cup Clause("S05_ElectronsGainRecorded", HdrAll(e, "k", e.k) /\ HdrAll(e, "kerr", e.kerr))
       \cup Clause("S05_ElectronsReadNoiseRecorded", HdrAll(e, "rn", e.rn) /\ HdrAll(e, "rnerr", e.rnerr))

DivFails(e, nm, unit, G(_)) ==      \* G(f) = the divisor of frame f (x Q)
  IF e.exc # "" \/ ~Shape(e) THEN {"S05_" \o nm \o "Accepted"}
  ELSE Clause("S05_" \o nm \o "Data", All(e, LAMBDA a, b, i, p : b.v = P!Divide(a, G(e.frames[i])).v /\ b.d = a.d))
       \cup Clause("S05_" \o nm \o "Error", All(e, LAMBDA a, b, i, p : Near(b.e2, P!Divide(a, G(e.frames[i])).e2, 0)))
       \cup Clause("S05_" \o nm \o "Layers", Others(e, LAMBDA x, y, i : y = P!DivideE2(x, G(e.frames[i]))))
       \cup Clause("S05_" \o nm \o "Unit", HdrAll(e, "bunit", unit))

\* ------------------------------------------------------------------ bad pixels
BadFails(e, nm, R(_, _)) ==          \* R(a, p) = the wanted output pixel
  IF e.exc # "" \/ ~Shape(e) THEN {"S08_" \o nm \o "Accepted"}
  ELSE Clause("S08_" \o nm \o "Data", All(e, LAMBDA a, b, i, p : b.v = R(a, p).v))
       \cup Clause("S08_" \o nm \o "Flags", All(e, LAMBDA a, b, i, p : b.d = R(a, p).d))
       \cup Clause("S08_" \o nm \o "Error", All(e, LAMBDA a, b, i, p : (nm = "BadPix" /\ b.v = NAN) \/ b.e2 = R(a, p).e2))

TheFails(s, e) ==
  CASE e.op = "dark" -> DarkFails(e)
    [] e.op = "flat" -> FlatFails(e)
    [] e.op = "electrons" -> ElectronFails(e)
    [] e.op = "emgain" -> DivFails(e, "EmGain", "detected electrons", LAMBDA f : EmGain(f.gain) * QQ)
    [] e.op = "exptime" -> DivFails(e, "Exptime", "photoelectrons/s", LAMBDA f : f.exptime)
    [] e.op = "badpix" -> BadFails(e, "BadPix", LAMBDA a, p : P!BadPix(a, e.mask[p]))
    [] e.op = "nanflags" -> BadFails(e, "NanFlags", LAMBDA a, p : P!NanFlags(a, e.thr))
    [] e.op = "flagnans" -> BadFails(e, "FlagNans", LAMBDA a, p : P!FlagNans(a, e.val))
TheStart(tr) == 0
TheNext(s, e) == s + 1
=============================================================================

------------------------------ MODULE DataOps ------------------------------
(***************************************************************************)
(* The in-memory data model: datasets own cubes (data, error layers, flags *)
(* - one cell per frame and component), frames are objects pointing into   *)
(* cells, headers belong to frames.  Frames can be taken over by another   *)
(* dataset (indexing, splitting, merging): they then point into the new    *)
(* dataset's cells and the old one no longer follows them.                 *)
(*                                                                         *)
(* Error layers are kept squared, so that adding a term of squared size t  *)
(* turns layer 1 into layer1 + t and rescaling by k multiplies by k*k.     *)
(*   s.dst, s.est, s.qst   memory cells (value, <<layer, ..>>, flags)      *)
(*   s.fr    frame objects [d, e, q |-> cell ids (0: unknown), pri, ext,   *)
(*           err, dqh |-> a header value, name, hist |-> <<term ids>>,     *)
(*           lay |-> <<term id of layer k>>, xh |-> number of ext history] *)
(*   s.ds    datasets [d, e, q |-> <<cell ids>>, fr |-> <<frame ids>>,     *)
(*           ok |-> it still owns all its frames]                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* a type-neutral way to append copies of cells
Cells(store, ids) == [i \in DOMAIN ids |-> store[ids[i]]]
Ids(from, n) == [i \in 1..n |-> from + i]
Empty == [dst |-> <<>>, est |-> <<>>, qst |-> <<>>, fr |-> <<>>, ds |-> <<>>]

\* a dataset built from existing frame objects: fresh cells, frames re-pointed
Take(s, fids) ==
  LET n == Len(fids)
      nd == Len(s.dst)
      ne == Len(s.est)
      nq == Len(s.qst)
      Pos(f) == CHOOSE i \in 1..n : fids[i] = f
      taken == {fids[i] : i \in 1..n} IN
  [dst |-> s.dst \o [i \in 1..n |-> s.dst[s.fr[fids[i]].d]],
   est |-> s.est \o [i \in 1..n |-> s.est[s.fr[fids[i]].e]],
   qst |-> s.qst \o [i \in 1..n |-> s.qst[s.fr[fids[i]].q]],
   fr |-> [f \in DOMAIN s.fr |-> IF f \in taken
                                 THEN [s.fr[f] EXCEPT !.d = nd + Pos(f), !.e = ne + Pos(f), !.q = nq + Pos(f)]
                                 ELSE s.fr[f]],
   ds |-> Append([x \in DOMAIN s.ds |->
                   LET o == s.ds[x]
                       Z(ids) == [i \in DOMAIN ids |-> IF o.fr[i] \in taken THEN 0 ELSE ids[i]] IN
                   IF \E i \in DOMAIN o.fr : o.fr[i] \in taken
                   THEN [d |-> Z(o.d), e |-> Z(o.e), q |-> Z(o.q), fr |-> o.fr, ok |-> FALSE]
                   ELSE o],
                 [d |-> Ids(nd, n), e |-> Ids(ne, n), q |-> Ids(nq, n), fr |-> fids, ok |-> TRUE])]

\* new frames (given as full records with values) become a dataset
Build(s, new) ==
  LET n == Len(new)
      nf == Len(s.fr) IN
  [dst |-> s.dst \o [i \in 1..n |-> new[i].dv],
   est |-> s.est \o [i \in 1..n |-> new[i].ev],
   qst |-> s.qst \o [i \in 1..n |-> new[i].qv],
   fr |-> s.fr \o [i \in 1..n |-> [d |-> Len(s.dst) + i, e |-> Len(s.est) + i, q |-> Len(s.qst) + i,
                                   pri |-> new[i].h.pri, ext |-> new[i].h.ext, err |-> new[i].h.err, dqh |-> new[i].h.dqh,
                                   name |-> new[i].h.name, hist |-> new[i].h.hist, lay |-> new[i].h.lay, xh |-> new[i].h.xh]],
   ds |-> Append(s.ds, [d |-> Ids(Len(s.dst), n), e |-> Ids(Len(s.est), n), q |-> Ids(Len(s.qst), n), fr |-> Ids(nf, n), ok |-> TRUE])]

Hdr(f) == [pri |-> f.pri, ext |-> f.ext, err |-> f.err, dqh |-> f.dqh, name |-> f.name, hist |-> f.hist, lay |-> f.lay, xh |-> f.xh]
FreshFrame(v) == [dv |-> v.d, ev |-> v.e, qv |-> v.q,
                  h |-> [pri |-> v.h, ext |-> v.h, err |-> v.h, dqh |-> v.h, name |-> v.h, hist |-> <<>>, lay |-> <<>>, xh |-> 0]]

FrameOf(s, d, i) == s.ds[d].fr[i]

\* the layers' names, padded up to layer n
Named(lay, n, id) == [k \in 1..(IF Len(lay) > n THEN Len(lay) ELSE n) |-> IF k = n THEN id ELSE IF k <= Len(lay) THEN lay[k] ELSE 0]

AddLayer(layers, t, track) == LET l1 == [layers EXCEPT ![1] = @ + t] IN IF track THEN Append(l1, t) ELSE l1
Rescaled(layers, k) == [x \in DOMAIN layers |-> layers[x] * k * k]

SetFrame(s, f, rec) == [s EXCEPT !.fr[f] = rec]

\* after an operation on the whole dataset all its errors live in fresh cells which its frames point to
Relink(s, d, vals) ==
  LET n == Len(vals)
      ne == Len(s.est) IN
  [s EXCEPT !.est = @ \o vals,
            !.ds[d].e = Ids(ne, n),
            !.fr = [f \in DOMAIN s.fr |-> IF \E i \in 1..n : s.ds[d].fr[i] = f
                                          THEN [s.fr[f] EXCEPT !.e = ne + (CHOOSE i \in 1..n : s.ds[d].fr[i] = f)] ELSE s.fr[f]]]

NoteTerm(fr, id, nlay, track, add) ==
  [fr EXCEPT !.hist = Append(@, id), !.lay = IF add /\ track THEN Named(@, nlay, id) ELSE @]

Apply(s, o) ==
  CASE o.op = "new" -> Build(s, [i \in DOMAIN o.fr |-> FreshFrame(o.fr[i])])
    [] o.op = "copy" ->
         Build(s, [i \in DOMAIN s.ds[o.d].fr |->
                    LET f == s.fr[FrameOf(s, o.d, i)] IN [dv |-> s.dst[f.d], ev |-> s.est[f.e], qv |-> s.qst[f.q], h |-> Hdr(f)]])
    [] o.op = "headercopy" ->
         LET n == Len(s.ds[o.d].fr) IN
         [s EXCEPT !.fr = @ \o [i \in 1..n |-> [s.fr[FrameOf(s, o.d, i)] EXCEPT !.d = 0, !.e = 0, !.q = 0]],
                   !.ds = Append(@, [d |-> [i \in 1..n |-> 0], e |-> [i \in 1..n |-> 0], q |-> [i \in 1..n |-> 0],
                                     fr |-> Ids(Len(s.fr), n), ok |-> FALSE])]
    [] o.op = "take" -> Take(s, [i \in DOMAIN o.idx |-> FrameOf(s, o.idx[i][1], o.idx[i][2])])
    [] o.op = "cube" /\ o.c = "d" -> [s EXCEPT !.dst[s.ds[o.d].d[o.i]] = o.v]
    [] o.op = "cube" /\ o.c = "q" -> [s EXCEPT !.qst[s.ds[o.d].q[o.i]] = o.v]
    [] o.op = "cube" /\ o.c = "e" -> [s EXCEPT !.est[s.ds[o.d].e[o.i]][1] = o.v]
    [] o.op = "frame" /\ o.c = "d" -> [s EXCEPT !.dst[s.fr[FrameOf(s, o.d, o.i)].d] = o.v]
    [] o.op = "frame" /\ o.c = "q" -> [s EXCEPT !.qst[s.fr[FrameOf(s, o.d, o.i)].q] = o.v]
    [] o.op = "frame" /\ o.c = "e" -> [s EXCEPT !.est[s.fr[FrameOf(s, o.d, o.i)].e][1] = o.v]
    [] o.op = "hdr" ->
         LET f == FrameOf(s, o.d, o.i) IN
         (CASE o.c = "pri" -> [s EXCEPT !.fr[f].pri = o.v]
           [] o.c = "ext" -> [s EXCEPT !.fr[f].ext = o.v]
           [] o.c = "err" -> [s EXCEPT !.fr[f].err = o.v]
           [] o.c = "dqh" -> [s EXCEPT !.fr[f].dqh = o.v]
           [] o.c = "name" -> [s EXCEPT !.fr[f].name = o.v])
    [] o.op = "update" ->      \* o.d: dataset; o.nd, o.ne, o.nq: <<>> or one new value per frame; o.v: header value or 0
         LET n == Len(s.ds[o.d].fr)
             s1 == IF o.nd = <<>> THEN s
                   ELSE [s EXCEPT !.dst = [c \in DOMAIN @ |-> IF \E i \in 1..n : s.ds[o.d].d[i] = c
                                             THEN o.nd[CHOOSE i \in 1..n : s.ds[o.d].d[i] = c] ELSE @[c]]]
             s2 == IF o.nq = <<>> THEN s1
                   ELSE [s1 EXCEPT !.qst = [c \in DOMAIN @ |-> IF \E i \in 1..n : s1.ds[o.d].q[i] = c
                                             THEN o.nq[CHOOSE i \in 1..n : s1.ds[o.d].q[i] = c] ELSE @[c]]]
             s3 == IF o.ne = <<>> THEN s2 ELSE Relink(s2, o.d, o.ne) IN
         [s3 EXCEPT !.fr = [f \in DOMAIN @ |-> IF \E i \in 1..n : s.ds[o.d].fr[i] = f
                              THEN IF o.v = 0 THEN [@[f] EXCEPT !.xh = @ + 1]
                                   ELSE [@[f] EXCEPT !.xh = @ + 1, !.ext = o.v, !.err = o.v]
                              ELSE @[f]]]
    [] o.op = "adderr" ->      \* o.t: one squared term per frame
         LET n == Len(s.ds[o.d].fr)
             New(i) == AddLayer(s.est[s.fr[FrameOf(s, o.d, i)].e], o.t[i], o.track)
             s1 == Relink(s, o.d, [i \in 1..n |-> New(i)]) IN
         [s1 EXCEPT !.fr = [f \in DOMAIN @ |-> IF \E i \in 1..n : s.ds[o.d].fr[i] = f
                              THEN NoteTerm(@[f], o.id, Len(New(CHOOSE i \in 1..n : s.ds[o.d].fr[i] = f)), o.track, TRUE)
                              ELSE @[f]]]
    [] o.op = "rescale" ->
         LET n == Len(s.ds[o.d].fr)
             s1 == Relink(s, o.d, [i \in 1..n |-> Rescaled(s.est[s.fr[FrameOf(s, o.d, i)].e], o.t[i])]) IN
         [s1 EXCEPT !.fr = [f \in DOMAIN @ |-> IF \E i \in 1..n : s.ds[o.d].fr[i] = f
                              THEN NoteTerm(@[f], o.id, 0, o.track, FALSE) ELSE @[f]]]
    [] o.op = "frameadd" ->
         LET f == FrameOf(s, o.d, o.i)
             new == AddLayer(s.est[s.fr[f].e], o.v, o.track)
             note == NoteTerm(s.fr[f], o.id, Len(new), o.track, TRUE) IN
         IF o.track      \* the frame's own error array grows: the cube no longer follows it
         THEN [s EXCEPT !.est = Append(@, new), !.fr[f] = [note EXCEPT !.e = Len(s.est) + 1],
                        !.ds = [x \in DOMAIN @ |-> [@[x] EXCEPT !.e = [i \in DOMAIN @ |-> IF @[i] = s.fr[f].e THEN 0 ELSE @[i]]]]]
         ELSE [s EXCEPT !.est[s.fr[f].e] = new, !.fr[f] = note]
    [] o.op = "framerescale" ->
         LET f == FrameOf(s, o.d, o.i) IN
         [s EXCEPT !.est = Append(@, Rescaled(s.est[s.fr[f].e], o.v)), !.fr[f] = [NoteTerm(@, o.id, 0, o.track, FALSE) EXCEPT !.e = Len(s.est) + 1],
                   !.ds = [x \in DOMAIN @ |-> [@[x] EXCEPT !.e = [i \in DOMAIN @ |-> IF @[i] = s.fr[f].e THEN 0 ELSE @[i]]]]]

\* ---------------------------------------------------------------- when an operation makes sense
Known(s, d, i) == LET f == s.fr[FrameOf(s, d, i)] IN f.d # 0 /\ f.e # 0 /\ f.q # 0
Layers(s, d, i) == Len(s.est[s.fr[FrameOf(s, d, i)].e])
Whole(s, d) == s.ds[d].ok /\ \A i \in DOMAIN s.ds[d].fr : Known(s, d, i) /\ Layers(s, d, i) = Layers(s, d, 1)
Small(s, d, i) == \A k \in 1..Layers(s, d, i) : s.est[s.fr[FrameOf(s, d, i)].e][k] < 100000
Enabled(s, o) ==
  CASE o.op = "new" -> TRUE
    [] o.op \in {"copy", "headercopy"} -> \A i \in DOMAIN s.ds[o.d].fr : Known(s, o.d, i) /\ Layers(s, o.d, i) = Layers(s, o.d, 1)
    [] o.op = "take" -> /\ \A x \in DOMAIN o.idx : Known(s, o.idx[x][1], o.idx[x][2])
                                                    /\ Layers(s, o.idx[x][1], o.idx[x][2]) = Layers(s, o.idx[1][1], o.idx[1][2])
                        /\ \A x, y \in DOMAIN o.idx : x # y => FrameOf(s, o.idx[x][1], o.idx[x][2]) # FrameOf(s, o.idx[y][1], o.idx[y][2])
    [] o.op = "cube" -> s.ds[o.d].d[o.i] # 0 /\ s.ds[o.d].q[o.i] # 0 /\ s.ds[o.d].e[o.i] # 0
    [] o.op = "frame" -> Known(s, o.d, o.i)
    [] o.op = "hdr" -> TRUE
    [] o.op = "update" -> Whole(s, o.d)
    [] o.op \in {"adderr", "rescale"} -> Whole(s, o.d) /\ \A i \in DOMAIN s.ds[o.d].fr : Small(s, o.d, i)
    [] o.op \in {"frameadd", "framerescale"} -> Known(s, o.d, o.i) /\ Small(s, o.d, o.i)

\* ---------------------------------------------------------------- what the model promises
\* the i-th cell of an owning dataset's cube is its i-th frame's own cell
Linked(s) == \A x \in DOMAIN s.ds : s.ds[x].ok =>
               \A i \in DOMAIN s.ds[x].fr :
                 LET f == s.fr[s.ds[x].fr[i]] IN f.d = s.ds[x].d[i] /\ f.q = s.ds[x].q[i] /\ s.ds[x].e[i] \in {0, f.e}
\* no two frame objects, and no two cube slots of different datasets, share a cell
Apart(s) == /\ \A f, g \in DOMAIN s.fr : f # g => /\ (s.fr[f].d # 0 => s.fr[f].d # s.fr[g].d)
                                                  /\ (s.fr[f].e # 0 => s.fr[f].e # s.fr[g].e)
                                                  /\ (s.fr[f].q # 0 => s.fr[f].q # s.fr[g].q)
            /\ \A x, y \in DOMAIN s.ds : x # y =>
                 \A i \in DOMAIN s.ds[x].d : \A j \in DOMAIN s.ds[y].d : s.ds[x].d[i] # 0 => s.ds[x].d[i] # s.ds[y].d[j]
\* the combined error is never below any tracked layer
CombinedTop(s) == \A c \in DOMAIN s.est : \A k \in DOMAIN s.est[c] : s.est[c][k] >= 0
=============================================================================

------------------------------ MODULE DataTrace ------------------------------
(* Binds DataOps to corgidrp.data.Dataset/Image.  Every event carries the       *)
(* operation (e.o), its outcome and what every dataset then looked like:         *)
(* e.ds[x] = [d, e, q |-> cube slices, fd, fe, fq |-> the frames' own arrays,    *)
(* h |-> frame headers]; e.linked: every cube slice shares memory with its frame. *)
EXTENDS TraceBase
D == INSTANCE DataOps

Same(x, cell, store, val) == cell = 0 \/ store[cell] = val
DsFails(s, e, x) ==
  LET m == s.ds[x]
      o == e.ds[x] IN
  IF Len(o.h) # Len(m.fr) THEN {"M02_Length"} ELSE
  UNION {LET f == s.fr[m.fr[i]] IN
     Clause("M02_CubeData", Same(x, m.d[i], s.dst, o.d[i]))
     \cup Clause("M02_CubeFlags", Same(x, m.q[i], s.qst, o.q[i]))
     \cup Clause("M02_FrameData", Same(x, f.d, s.dst, o.fd[i]))
     \cup Clause("M02_FrameFlags", Same(x, f.q, s.qst, o.fq[i]))
     \cup Clause("M02_Headers", o.h[i].pri = f.pri /\ o.h[i].ext = f.ext /\ o.h[i].err = f.err /\ o.h[i].dqh = f.dqh /\ o.h[i].name = f.name)
     \cup Clause("M02_History", o.h[i].xh = f.xh)
     : i \in DOMAIN m.fr}
\* errors: a wrong combined value is an error-bookkeeping failure when the operation was one on errors
ErrFails(s, e, x) ==
  LET m == s.ds[x]
      o == e.ds[x] IN
  IF Len(o.h) # Len(m.fr) THEN {} ELSE
  UNION {LET f == s.fr[m.fr[i]]
             mine == e.o.op \in {"adderr", "rescale", "frameadd", "framerescale"} IN
     Clause(IF mine THEN "M04_FrameError" ELSE "M02_FrameError", Same(x, f.e, s.est, o.fe[i]))
     \cup Clause(IF mine THEN "M04_CubeError" ELSE "M02_CubeError", Same(x, m.e[i], s.est, o.e[i]))
     \cup Clause("M04_LayerNames", IF f.e = 0 THEN TRUE ELSE
                   \A k \in 2..Len(s.est[f.e]) : (IF k <= Len(f.lay) THEN f.lay[k] ELSE 0) = (IF k <= Len(o.h[i].lay) THEN o.h[i].lay[k] ELSE 0))
     \cup Clause("M04_History", o.h[i].hist = f.hist)
     : i \in DOMAIN m.fr}

\* e.lk[i] = [d, e, q]: does slice i of the touched dataset e.x share memory with its frame
LinkedAsModelled(s, e) ==
  LET m == s.ds[e.x] IN
  \A i \in DOMAIN m.fr : e.lk[i].d /\ e.lk[i].q /\ (e.lk[i].e \/ (m.e[i] # s.fr[m.fr[i]].e))
TheNext(s, e) == D!Apply(s, e.o)
TheFails(s, e) ==
  LET n == TheNext(s, e) IN
  IF e.exc # "" THEN {"M02_NoError"}
  ELSE IF Len(e.ds) # Len(n.ds) THEN {"M02_Datasets"}
  ELSE UNION {DsFails(n, e, x) \cup ErrFails(n, e, x) : x \in DOMAIN n.ds}
       \cup Clause("M02_Linked", e.lk = <<>> \/ LinkedAsModelled(n, e))
       \cup Clause("M02_CopyEqual", e.equal)
       \cup Clause("M02_SourceKept", e.srckept)
TheStart(tr) == D!Empty
=============================================================================

--------------------------- MODULE LinearityTrace ---------------------------
(* Binds LinearityOps to correct_nonlinearity, get_relgains and desmear.           *)
EXTENDS TraceBase, LinearityOps, EmGainOps
D == INSTANCE DQBitsOps
R == 8
\* axis steps are powers of two up to 8 (gain) and 16 (counts)
MGv == 8
MCv == 16
NonlinFails(e) ==
  IF e.nogain \/ (e.table.g # <<>> /\ ~ValidTable(e.table, R)) THEN Clause("S12_TableRejected", e.exc # "")
  ELSE IF e.exc # "" \/ Len(e.out) # Len(e.frames) THEN {"S12_NonlinAccepted"}
  ELSE Clause("S12_NonlinData", \A i \in DOMAIN e.frames : \A p \in DOMAIN e.frames[i].v :
                e.out[i].v[p] = IF e.table.g = <<>> THEN e.frames[i].v[p] * R * MGv * MCv
                                ELSE e.frames[i].v[p] * RelGain(e.table, EmGain(e.frames[i].h), e.frames[i].v[p], MGv, MCv))
       \cup Clause("S12_NonlinFlags", \A i \in DOMAIN e.frames : \A p \in DOMAIN e.frames[i].v :
                e.out[i].d[p] = IF e.thr # NAN /\ e.frames[i].v[p] > e.thr THEN D!Or(e.frames[i].d[p], 64) ELSE e.frames[i].d[p])
       \cup Clause("S12_NonlinError", \A i \in DOMAIN e.frames : e.out[i].errok)
Z == 4096
SmearFails(e) ==
  IF e.exc # "" \/ Len(e.out) # Len(e.frames) THEN {"S12_DesmearAccepted"}
  ELSE Clause("S12_DesmearData", \A i \in DOMAIN e.frames : \A c \in DOMAIN e.frames[i].cols :
         LET x == e.frames[i].cols[c]
             p == e.frames[i].p
             q == e.frames[i].q IN
         \A r \in DOMAIN x : Near(e.out[i].cols[c][r], x[r] * Z - Smear(x, r, p, q, Z), (p + q) \div p + 3))
       \cup Clause("S12_DesmearRecorded", \A i \in DOMAIN e.out : e.out[i].desmear)
       \cup Clause("S12_DesmearRest", \A i \in DOMAIN e.out : e.out[i].rest)
TheFails(s, e) == IF e.op = "nonlin" THEN NonlinFails(e) ELSE SmearFails(e)
TheStart(tr) == 0
TheNext(s, e) == s + 1
=============================================================================

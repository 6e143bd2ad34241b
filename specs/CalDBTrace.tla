---------------------------- MODULE CalDBTrace ----------------------------
(* Binds CalDB.tla to traces recorded from corgidrp.caldb.  The state is   *)
(* the last observed table of the file and of every open handle; rows are  *)
(* records of all fourteen columns.                                        *)
EXTENDS TraceBase

NONE == [mjd |-> NAN, exptime |-> NAN]
C == INSTANCE CalDBOps WITH None <- NONE

\* The row that registering an object must produce.
RowOf(e) ==
  [path |-> e.path, type |-> e.label, mjd |-> e.sctsrt, exptime |-> e.exptime,
   nfiles |-> IF e.drpnfile = -1 THEN 0 ELSE e.drpnfile,
   created |-> e.drpctime, hash |-> e.hash,
   vers |-> e.vers, obsnum |-> e.obsnum,
   nax1 |-> e.shape[Len(e.shape)],
   nax2 |-> IF Len(e.shape) < 2 THEN 0 ELSE e.shape[Len(e.shape) - 1],
   opmode |-> e.opmode, emgain |-> e.emgain, excamt |-> e.excamt]

RowsOf(es) == [i \in DOMAIN es |-> RowOf(es[i])]

SameTable(a, b) == ToSet(a) = ToSet(b) /\ Len(a) = Len(b)

\* what the operation must leave in this handle's memory and on disk
Expect(s, e) ==
  LET h == e.h
      base == IF e.td THEN s.disk ELSE s.mem[h] IN
  CASE e.op = "open"   -> [mem |-> s.disk, disk |-> s.disk]
    [] e.op = "load"   -> [mem |-> s.disk, disk |-> s.disk]
    [] e.op = "save"   -> [mem |-> s.mem[h], disk |-> s.mem[h]]
    [] e.op = "create" -> LET n == C!Upsert(base, RowOf(e.entry)) IN
                            [mem |-> n, disk |-> IF e.td THEN n ELSE s.disk]
    [] e.op = "remove" -> LET n == C!Without(base, e.entry.path) IN
                            [mem |-> n, disk |-> IF e.td THEN n ELSE s.disk]
    [] e.op = "scan"   -> LET n == C!UpsertAll(base, RowsOf(e.entries)) IN
                            IF e.entries = <<>> THEN [mem |-> s.mem[h], disk |-> s.disk]
                            ELSE [mem |-> n, disk |-> IF e.td THEN n ELSE s.disk]
    [] e.op \in {"get", "getbad"} -> [mem |-> base, disk |-> s.disk]

KeyOK(s) == C!Unique(s.disk) /\ \A h \in DOMAIN s.mem : C!Unique(s.mem[h])

Others(s, e) == \A h \in DOMAIN s.mem : h # e.h => SameTable(s.mem[h], e.mem[h])

GetFails(s, e) ==
  LET tab == IF e.td THEN s.disk ELSE s.mem[e.h]
      f == IF e.noframe THEN NONE ELSE [mjd |-> e.frame.mjd, exptime |-> e.frame.exptime]
      E == C!Eligible(tab, f, e.label)
      B == C!Best(tab, f, e.label) IN
  IF E = {} THEN Clause("C01_NoMatchIsValueError", e.exc = "ValueError")
  ELSE Clause("C01_MatchReturned", e.exc = "")
       \cup Clause("C01_BestMatch", e.exc # "" \/ \E i \in B : tab[i].path = e.retpath)
       \cup Clause("C01_ReturnedType", e.exc # "" \/ e.rettype = e.label)

TheFails(s, e) ==
  LET base == IF e.td \/ e.op = "open" THEN s.disk ELSE s.mem[e.h]
      present == C!Has(base, IF e.op = "remove" THEN e.entry.path ELSE "")
      x == Expect(s, e)
      new == [disk |-> e.disk, mem |-> e.mem]
  IN Clause("C02_UniquePath", KeyOK(new))
     \cup Clause("C02_OtherHandlesUntouched", Others(s, e))
     \cup (IF e.op = "get" THEN GetFails(s, e) ELSE {})
     \cup (IF e.op = "getbad" THEN Clause("C01_UnsupportedTypeIsValueError", e.exc = "ValueError") ELSE {})
     \cup (IF e.op = "remove" /\ ~present
           THEN Clause("C02_RemoveMissingIsValueError", e.exc = "ValueError")
                \cup Clause("C02_FailedRemoveKeepsDisk", SameTable(e.disk, s.disk))
           ELSE IF e.op \in {"get", "getbad"}
           THEN Clause("C02_LookupKeepsDisk", SameTable(e.disk, s.disk))
                \cup Clause("C02_LookupRefreshes", e.exc # "" \/ SameTable(e.mem[e.h], x.mem))
           ELSE Clause("C02_NoError", e.exc = "")
                \cup Clause("C02_DiskContent_" \o e.op, e.exc # "" \/ SameTable(e.disk, x.disk))
                \cup Clause("C02_MemoryContent_" \o e.op, e.exc # "" \/ SameTable(e.mem[e.h], x.mem)))

TheStart(tr) == [disk |-> <<>>, mem |-> [h \in {} |-> <<>>]]
TheNext(s, e) == [disk |-> e.disk, mem |-> e.mem]
=============================================================================

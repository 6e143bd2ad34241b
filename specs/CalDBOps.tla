------------------------------ MODULE CalDBOps ------------------------------
(* Tables of the calibration database as sequences of rows keyed by path:   *)
(* update, removal and selection.  No variables: used by the specification  *)
(* CalDB and by its trace binding CalDBTrace.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT None

IdxOf(tab, p) == {i \in DOMAIN tab : tab[i].path = p}
Has(tab, p)   == IdxOf(tab, p) # {}
Paths(tab)    == {tab[i].path : i \in DOMAIN tab}

Upsert(tab, r) ==
  IF Has(tab, r.path)
  THEN [i \in DOMAIN tab |-> IF tab[i].path = r.path THEN r ELSE tab[i]]
  ELSE Append(tab, r)

Without(tab, p) == SelectSeq(tab, LAMBDA r : r.path # p)

RECURSIVE UpsertAll(_, _)
UpsertAll(tab, rs) == IF rs = <<>> THEN tab ELSE UpsertAll(Upsert(tab, Head(rs)), Tail(rs))


\* ------------------------------------------------------------- selection
Abs(x) == IF x < 0 THEN -x ELSE x

OfType(tab, ty) == {i \in DOMAIN tab : tab[i].type = ty}

\* frame = None: "most recently created"; otherwise [mjd, exptime].
Eligible(tab, frame, ty) ==
  IF frame = None THEN OfType(tab, ty)
  ELSE IF ty = "Dark" THEN {i \in OfType(tab, ty) : tab[i].exptime = frame.exptime}
  ELSE OfType(tab, ty)

Best(tab, frame, ty) ==
  LET E == Eligible(tab, frame, ty) IN
  IF frame = None
  THEN {i \in E : \A j \in E : tab[j].created <= tab[i].created}
  ELSE {i \in E : \A j \in E : Abs(tab[i].mjd - frame.mjd) <= Abs(tab[j].mjd - frame.mjd)}

Unique(tab) == \A i, j \in DOMAIN tab : tab[i].path = tab[j].path => i = j
=============================================================================

------------------------------- MODULE CalDB -------------------------------
(***************************************************************************)
(* The calibration database of corgidrp (corgidrp/caldb.py): a CSV file on *)
(* disk shared by any number of CalDB handles, each holding its own        *)
(* in-memory copy of the table.  A table is a sequence of rows; the key of *)
(* a row is its file path.                                                 *)
(***************************************************************************)
EXTENDS CalDBOps

CONSTANTS Handles, Rows

VARIABLES disk,   \* the table in the CSV file
          mem,    \* [Handles -> table or None]; None: the handle is not open
          act     \* last action, for action properties: [op, h, td, p]

vars == <<disk, mem, act>>

\* The table a call works on: refreshed from disk when the call goes through the disk.
Base(h, td) == IF td THEN disk ELSE mem[h]

\* --------------------------------------------------------------- actions
Open(h) == /\ mem[h] = None
           /\ mem' = [mem EXCEPT ![h] = disk]
           /\ UNCHANGED disk
           /\ act' = [op |-> "open", h |-> h, td |-> TRUE, p |-> None]

Create(h, r, td) ==
  /\ mem[h] # None
  /\ LET new == Upsert(Base(h, td), r) IN
       /\ mem' = [mem EXCEPT ![h] = new]
       /\ disk' = IF td THEN new ELSE disk
  /\ act' = [op |-> "create", h |-> h, td |-> td, p |-> r.path]

Remove(h, p, td) ==
  /\ mem[h] # None
  /\ LET b == Base(h, td) IN
       IF Has(b, p)
       THEN /\ mem' = [mem EXCEPT ![h] = Without(b, p)]
            /\ disk' = IF td THEN Without(b, p) ELSE disk
            /\ act' = [op |-> "remove", h |-> h, td |-> td, p |-> p]
       ELSE /\ mem' = [mem EXCEPT ![h] = b]
            /\ UNCHANGED disk
            /\ act' = [op |-> "removeError", h |-> h, td |-> td, p |-> p]

Load(h) == /\ mem[h] # None
           /\ mem' = [mem EXCEPT ![h] = disk]
           /\ UNCHANGED disk
           /\ act' = [op |-> "load", h |-> h, td |-> TRUE, p |-> None]

Save(h) == /\ mem[h] # None
           /\ disk' = mem[h]
           /\ UNCHANGED mem
           /\ act' = [op |-> "save", h |-> h, td |-> TRUE, p |-> None]

Scan(h, rs, td) ==
  /\ mem[h] # None
  /\ LET new == UpsertAll(Base(h, td), rs) IN
       /\ mem' = [mem EXCEPT ![h] = IF rs = <<>> THEN mem[h] ELSE new]
       /\ disk' = IF td THEN new ELSE disk
  /\ act' = [op |-> "scan", h |-> h, td |-> td, p |-> None]

Get(h, td) == /\ mem[h] # None
              /\ mem' = [mem EXCEPT ![h] = Base(h, td)]
              /\ UNCHANGED disk
              /\ act' = [op |-> "get", h |-> h, td |-> td, p |-> None]

Init == /\ disk = <<>>
        /\ mem = [h \in Handles |-> None]
        /\ act = [op |-> "init", h |-> None, td |-> TRUE, p |-> None]

Next == \E h \in Handles :
  \/ Open(h) \/ Load(h) \/ Save(h)
  \/ \E td \in BOOLEAN :
       \/ \E r \in Rows : Create(h, r, td) \/ Remove(h, r.path, td)
       \/ \E r1, r2 \in Rows : r1.path # r2.path /\ Scan(h, <<r1, r2>>, td)
       \/ Get(h, td)

Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ properties

\* C02: the file path is a key of every table, always.
KeyInv == Unique(disk) /\ \A h \in Handles : mem[h] # None => Unique(mem[h])

\* C02: an operation that goes through the disk leaves the handle equal to the disk.
ThroughDisk == [][ (act'.td /\ act'.op # "init") => mem'[act'.h] = disk' ]_vars

\* C02: no call that goes through the disk silently drops what others stored;
\* an entry leaves the disk only by an explicit removal or a whole-table save.
NoLostEntry ==
  [][ act'.op # "save" =>
        \A p \in Paths(disk) : p \notin Paths(disk') => act'.op = "remove" /\ act'.p = p ]_vars

\* C02: operations that stay in memory never touch the disk or another handle.
Isolation == [][ /\ (~act'.td => disk' = disk)
                 /\ \A h \in Handles : h # act'.h => mem'[h] = mem[h] ]_vars

\* C02: an update changes exactly the row of that path.
OnlyKey ==
  [][ act'.op = "create" =>
        LET b == IF act'.td THEN disk ELSE mem[act'.h]
            n == mem'[act'.h]
        IN  /\ Paths(n) = Paths(b) \cup {act'.p}
            /\ \A i \in DOMAIN b : b[i].path # act'.p => \E j \in DOMAIN n : n[j] = b[i] ]_vars

\* C01: the selected rows are right by an independent formulation: a strictly better
\* eligible row never exists, nothing ineligible is selected, and a row is selected
\* whenever any is eligible.
SelectionInv ==
  \A h \in Handles : mem[h] # None =>
    \A ty \in {r.type : r \in Rows} :
      \A f \in {None} \cup {[mjd |-> m, exptime |-> x] : m \in 0..2, x \in {r.exptime : r \in Rows}} :
        LET tab == mem[h]
            B == Best(tab, f, ty)
            E == Eligible(tab, f, ty) IN
          /\ B \subseteq E
          /\ (E # {} => B # {})
          /\ \A i \in B : tab[i].type = ty /\ (f # None /\ ty = "Dark" => tab[i].exptime = f.exptime)
          /\ \A i \in B, j \in E : ~(IF f = None THEN tab[j].created > tab[i].created
                                      ELSE (tab[j].mjd - f.mjd)^2 < (tab[i].mjd - f.mjd)^2)
=============================================================================

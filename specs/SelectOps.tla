------------------------------ MODULE SelectOps ------------------------------
(* Frame selection.  A frame is [d |-> flag words, over |-> overexposed,         *)
(* z |-> <<tip jitter, tilt jitter, tip bias, tilt bias>>]; a configuration is    *)
(* [frac8 |-> limit in eighths, allowed |-> flags, over |-> use the flag,         *)
(*  rms |-> limit or Off, bias |-> limit or Off].                                 *)
EXTENDS DQBitsOps
Off == -1000000003

\* the disallowed flags of a word
Disallowed(d, allowed) == d - And(d, allowed)
BadCount(f, cfg) == Cardinality({p \in DOMAIN f.d : Disallowed(f.d[p], cfg.allowed) # 0})

Reasons(f, cfg) ==
  (IF cfg.frac8 < 8 /\ 8 * BadCount(f, cfg) > cfg.frac8 * Len(f.d) THEN {"pix"} ELSE {})
  \cup (IF cfg.over /\ f.over THEN {"over"} ELSE {})
  \cup (IF cfg.rms # Off /\ f.z[1] > cfg.rms THEN {"z2var"} ELSE {})
  \cup (IF cfg.rms # Off /\ f.z[2] > cfg.rms THEN {"z3var"} ELSE {})
  \cup (IF cfg.bias # Off /\ f.z[3] > cfg.bias THEN {"z2res"} ELSE {})
  \cup (IF cfg.bias # Off /\ f.z[4] > cfg.bias THEN {"z3res"} ELSE {})
Rejected(f, cfg) == Reasons(f, cfg) # {}
Kept(fs, cfg) == SelectSeq([i \in DOMAIN fs |-> i], LAMBDA i : ~Rejected(fs[i], cfg))
=============================================================================

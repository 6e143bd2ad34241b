---------------------------- MODULE LinearityOps ----------------------------
(* Relative-gain interpolation and readout-smear removal in exact fractions.     *)
EXTENDS Integers, Sequences, TLC

Increasing(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
\* table: [g |-> gain axis, c |-> count axis, r |-> rows by count, columns by gain, x R]
Straddles(t, R) == \A j \in DOMAIN t.g : /\ \E i \in DOMAIN t.c : t.r[i][j] <= R
                                        /\ \E i \in DOMAIN t.c : t.r[i][j] >= R
ValidTable(t, R) == Increasing(t.g) /\ Increasing(t.c) /\ Straddles(t, R)

Clamp(x, ax) == IF x < ax[1] THEN ax[1] ELSE IF x > ax[Len(ax)] THEN ax[Len(ax)] ELSE x
Cell(x, ax) == CHOOSE i \in 1..(Len(ax) - 1) : ax[i] <= x /\ x <= ax[i + 1]
\* M times the linear interpolation of values y over axis ax at x; M is a multiple of every axis step
Lin(x, ax, y, M) == LET z == Clamp(x, ax)
                        i == Cell(z, ax)
                        d == ax[i + 1] - ax[i] IN
                    (M \div d) * (y[i] * (ax[i + 1] - z) + y[i + 1] * (z - ax[i]))
\* R*MG*MC times the relative gain at gain g and counts v
RelGain(t, g, v, MG, MC) ==
  Lin(v, t.c, [i \in DOMAIN t.c |-> Lin(g, t.g, t.r[i], MG)], MC)

\* smear of a column, x Z, with readout/exposure = p/q: y_r = (y_{r-1} + (p/q) x_r) / (1 + p/q)
RECURSIVE Smear(_, _, _, _, _)
Smear(x, r, p, q, Z) == IF r = 0 THEN 0 ELSE (q * Smear(x, r - 1, p, q, Z) + p * x[r] * Z) \div (p + q)
=============================================================================

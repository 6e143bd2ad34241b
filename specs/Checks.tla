------------------------------ MODULE Checks ------------------------------
(* Argument checks (corgidrp/check.py).  A value is described by             *)
(*   scalar  it is a Python/numpy number (booleans of Python included)       *)
(*   cplx    it (or its elements) is complex      int   integer type         *)
(*   sign    -1, 0, 1 of a real number            str, bool, dict            *)
(*   ndim    number of dimensions as an array (-1: not an array)             *)
(*   square  all dimensions equal                 realdt real numeric type   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Real(v) == v.scalar /\ ~v.cplx
Accepts(f, v) ==
  CASE f = "real_scalar"                -> Real(v)
    [] f = "real_positive_scalar"       -> Real(v) /\ v.sign > 0
    [] f = "real_nonnegative_scalar"    -> Real(v) /\ v.sign >= 0
    [] f = "scalar_integer"             -> v.scalar /\ v.int
    [] f = "positive_scalar_integer"    -> v.scalar /\ v.int /\ v.sign > 0
    [] f = "nonnegative_scalar_integer" -> v.scalar /\ v.int /\ v.sign >= 0
    [] f = "real_array"                 -> v.ndim >= 1 /\ v.realdt
    [] f = "oneD_array"                 -> v.ndim = 1
    [] f = "twoD_array"                 -> v.ndim = 2
    [] f = "twoD_square_array"          -> v.ndim = 2 /\ v.square
    [] f = "threeD_array"               -> v.ndim = 3
    [] f = "string"                     -> v.str
    [] f = "boolean"                    -> v.bool
    [] f = "dictionary"                 -> v.dict
Functions == {"real_scalar", "real_positive_scalar", "real_nonnegative_scalar", "scalar_integer",
              "positive_scalar_integer", "nonnegative_scalar_integer", "real_array", "oneD_array", "twoD_array",
              "twoD_square_array", "threeD_array", "string", "boolean", "dictionary"}
Implies(f, g) == {<<f, g>>}
\* the lattice of the checks: whatever the stronger accepts, the weaker accepts
Lattice == {<<"real_positive_scalar", "real_nonnegative_scalar">>, <<"real_nonnegative_scalar", "real_scalar">>,
            <<"positive_scalar_integer", "nonnegative_scalar_integer">>, <<"nonnegative_scalar_integer", "scalar_integer">>,
            <<"scalar_integer", "real_scalar">>, <<"positive_scalar_integer", "real_positive_scalar">>,
            <<"twoD_square_array", "twoD_array">>}
Exclusive == {<<"oneD_array", "twoD_array">>, <<"twoD_array", "threeD_array">>, <<"string", "real_scalar">>,
              <<"dictionary", "real_array">>, <<"real_scalar", "real_array">>, <<"string", "boolean">>}
=============================================================================

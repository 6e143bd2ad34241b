------------------------------ MODULE MCCalDB ------------------------------
EXTENDS CalDB
MCRows == {[path |-> "a", type |-> "Dark", mjd |-> 0, exptime |-> 1, created |-> 2],
           [path |-> "a", type |-> "Dark", mjd |-> 2, exptime |-> 2, created |-> 1],
           [path |-> "b", type |-> "Dark", mjd |-> 1, exptime |-> 1, created |-> 3]}
MCRowsDeep == MCRows \cup {[path |-> "c", type |-> "Flat", mjd |-> 1, exptime |-> 1, created |-> 1]}
=============================================================================

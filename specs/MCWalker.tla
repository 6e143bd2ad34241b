------------------------------ MODULE MCWalker ------------------------------
EXTENDS Walker
=============================================================================

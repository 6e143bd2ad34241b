SPECIFICATION Spec
CONSTANTS
  Handles = {h1, h2}
  Rows <- MCRows
  None = None
INVARIANTS KeyInv SelectionInv
PROPERTIES ThroughDisk NoLostEntry Isolation OnlyKey

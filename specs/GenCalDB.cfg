SPECIFICATION GSpec
CONSTANTS
  Handles = {"h1", "h2"}
  Rows = {}
  None = None
  Depth = 14
INVARIANT GPrint KeyInv
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Depth = 8
INVARIANTS LevelOrder NoSkip OwnUnits
PROPERTIES FlagsKept NoNewFrames
CHECK_DEADLOCK FALSE

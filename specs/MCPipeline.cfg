SPECIFICATION Spec
CONSTANTS Depth = 5
INVARIANTS LevelOrder NoSkip OwnUnits
PROPERTIES FlagsKept NoNewFrames
CHECK_DEADLOCK FALSE

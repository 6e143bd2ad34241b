SPECIFICATION Spec
CONSTANTS N = 2
 Steps = 4
 Relabels = FALSE
 Show = FALSE
INVARIANTS CalsAtL4 NameFollows
PROPERTIES OneUp Together

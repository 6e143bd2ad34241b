SPECIFICATION Spec
CONSTANTS UsedKinds = {"Dark", "KGain", "Cube"}
 Paths = {"p", "q"}
 MaxSteps = 6
 MaxObjs = 4
PROPERTIES EditOnly FilesBySave KindsKept

SPECIFICATION Spec
CONSTANTS UsedKinds = {"Dark", "KGain", "Cube"}
 Paths = {"p", "q"}
 MaxSteps = 5
 MaxObjs = 3
PROPERTIES EditOnly FilesBySave KindsKept

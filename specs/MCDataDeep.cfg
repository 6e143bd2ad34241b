SPECIFICATION Spec
CONSTANTS MaxOps = 4
 MaxDs = 3
 Tracks = {TRUE, FALSE}
INVARIANTS InvLinked InvApart InvErr
PROPERTIES OthersUnchanged CubeIsFrame

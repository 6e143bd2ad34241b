SPECIFICATION Spec
CONSTANT Kind = "flux"
INVARIANT GPrint

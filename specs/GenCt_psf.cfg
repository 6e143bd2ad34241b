SPECIFICATION Spec
CONSTANT Kind = "psf"
INVARIANT GPrint

SPECIFICATION Spec
CONSTANT Kind = "fpm"
INVARIANT GPrint

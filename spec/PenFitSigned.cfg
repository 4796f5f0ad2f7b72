SPECIFICATION Spec
CONSTANTS SIGNED = TRUE
MU = 1
INVARIANT Minimises

SPECIFICATION Spec
CONSTANTS SIGNED = FALSE
MU = 1
INVARIANT Minimises

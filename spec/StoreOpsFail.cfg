CONSTANTS
  LEN = 9
  FAILING = TRUE
SPECIFICATION Spec
INVARIANT Emit

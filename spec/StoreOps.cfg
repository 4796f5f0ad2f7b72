CONSTANTS
  LEN = 9
  FAILING = FALSE
SPECIFICATION Spec
INVARIANT Emit

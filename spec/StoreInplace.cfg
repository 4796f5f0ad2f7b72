CONSTANTS
  KEYS = {"a", "b"}
  E = 2
  FITS = 3
  EAGER = FALSE
  INPLACE = TRUE
SPECIFICATION Spec
INVARIANTS Outcome Whole Restored
PROPERTIES LogGrows Ends

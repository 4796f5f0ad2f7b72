CONSTANTS
  KEYS = {"a", "b"}
  E = 2
  FITS = 3
  EAGER = TRUE
  INPLACE = FALSE
SPECIFICATION Spec
INVARIANTS Outcome Whole Restored
PROPERTIES LogGrows Ends

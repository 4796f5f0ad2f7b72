CONSTANTS
  WHICH = "C24"
SPECIFICATION Spec

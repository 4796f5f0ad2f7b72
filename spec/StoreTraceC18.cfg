CONSTANTS
  WHICH = "C18"
SPECIFICATION Spec

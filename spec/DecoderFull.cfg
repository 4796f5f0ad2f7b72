CONSTANTS
  MaxM = 3
  MaxL = 3
  MaxH = 2
  MaxW = 3
  MASKED = FALSE
SPECIFICATION Spec
INVARIANTS OneMeasurement AllLatents NoneDead

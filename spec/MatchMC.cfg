SPECIFICATION Spec
CONSTANTS K = 3
M = 1
VALS <- Vals
INVARIANTS RightBest AbsSmaller Vanish

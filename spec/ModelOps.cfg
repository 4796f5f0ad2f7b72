SPECIFICATION Spec
CONSTANTS OBJ = {1, 2, 3} X = {1, 2, 3} LEN = 12 HIST = TRUE
INVARIANT Emit

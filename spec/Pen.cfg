SPECIFICATION Spec
CONSTANTS OBJ = {1, 2} X = {1, 2, 3} LEN = 8 HIST = TRUE
INVARIANT Emit

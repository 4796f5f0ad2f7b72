SPECIFICATION Spec
CONSTANTS OBJ = 3
LEN = 15
DELETING = FALSE
GRAPHCOUNT = 1000
INVARIANT Emit

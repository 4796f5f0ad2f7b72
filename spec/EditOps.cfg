SPECIFICATION Spec
CONSTANTS OBJ = {1, 2}
LEN = 14
INVARIANT Emit

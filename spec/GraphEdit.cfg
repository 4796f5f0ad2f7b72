SPECIFICATION Spec
CONSTANTS N = 3
OBJ = {1}
LEN = 3
CONSTRAINT Bound
INVARIANTS Symmetric AsEdited Counted NoLoops

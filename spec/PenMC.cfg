SPECIFICATION Spec
CONSTANTS OBJ = {1, 2} X = {1} LEN = 4 HIST = FALSE
INVARIANT SamplesAreFits
PROPERTY OthersKeep

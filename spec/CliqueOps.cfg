SPECIFICATION Spec
CONSTANTS GENS = {1, 2, 3}
LEN = 12
GRAPHCOUNT = 300
INVARIANT Emit

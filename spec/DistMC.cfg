SPECIFICATION Spec
CONSTANTS N = 3
K = 2
INVARIANTS Symmetric OrderFree Vanish Finer

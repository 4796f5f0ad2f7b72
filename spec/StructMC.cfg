SPECIFICATION Spec
CONSTANT N = 4
INVARIANTS Sound Complete IsMinimum

SPECIFICATION Spec
CONSTANT N = 5
INVARIANTS Sound Complete IsMinimum

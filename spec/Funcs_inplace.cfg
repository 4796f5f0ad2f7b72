SPECIFICATION Spec
CONSTANTS DESIGN = "inplace"
LEN = 5
INVARIANTS Right ArgumentsKept ResultsKept

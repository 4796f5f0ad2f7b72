SPECIFICATION Spec
CONSTANTS DESIGN = "buffer"
LEN = 5
INVARIANTS Right ArgumentsKept ResultsKept

SPECIFICATION Spec
CONSTANTS DESIGN = "shared"
LEN = 5
INVARIANTS Right ArgumentsKept ResultsKept

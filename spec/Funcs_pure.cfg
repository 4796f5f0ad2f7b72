SPECIFICATION Spec
CONSTANTS DESIGN = "pure"
LEN = 5
INVARIANTS Right ArgumentsKept ResultsKept

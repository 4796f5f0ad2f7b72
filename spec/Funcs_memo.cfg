SPECIFICATION Spec
CONSTANTS DESIGN = "memo"
LEN = 5
INVARIANTS Right ArgumentsKept ResultsKept

SPECIFICATION Spec
CONSTANTS DESIGN = "ident"
LEN = 5
INVARIANTS Right ArgumentsKept ResultsKept

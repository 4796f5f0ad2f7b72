SPECIFICATION Spec
CONSTANTS N = 3
TOP = 3
INVARIANTS ByDefinition Symmetric Nonneg Shifted CauchySchwarz Repeated

SPECIFICATION Spec
CONSTANTS N = 4 TOP = 2
INVARIANTS ByDefinition Symmetric Variance CauchySchwarz Units Order Known

SPECIFICATION Spec
CONSTANTS N = 5 TOP = 2
INVARIANTS ByDefinition Symmetric Variance CauchySchwarz Units Order Known

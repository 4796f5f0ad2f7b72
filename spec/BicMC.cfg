SPECIFICATION Spec
CONSTANTS N = 4
TOP = 2
INVARIANTS BoundsDecide RepeatsDecide Symmetric UnitFree OrderFree SelfDependent UncorrelatedIndependent

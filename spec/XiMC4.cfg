SPECIFICATION Spec
CONSTANTS N = 4
TOP = 4
INVARIANTS RanksAddUp ReverseRanks NoTies Positive NotAbove1 Monotone Constant VarianceNonneg GroupedRight PermutedRight

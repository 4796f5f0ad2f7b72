SPECIFICATION Spec
CONSTANTS N = 4
TOP = 3
INVARIANTS RanksAddUp ReverseRanks NoTies Positive NotAbove1 Monotone Constant VarianceNonneg GroupedRight PermutedRight

SPECIFICATION Spec
CONSTANTS N = 6
GRAPHS <- Reps
INVARIANTS RulesKeepValue ForcedIsUnique BranchingIsComplete CompleteIsCover RestoredAreCliques Consistent NoStuck

SPECIFICATION Spec
CONSTANTS N = 5
GRAPHS <- Reps
INVARIANTS RulesKeepValue ForcedIsUnique BranchingIsComplete CompleteIsCover RestoredAreCliques Consistent NoStuck

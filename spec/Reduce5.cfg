SPECIFICATION Spec
CONSTANTS N = 5
GRAPHS = {}
INVARIANTS RulesKeepValue ForcedIsUnique BranchingIsComplete CompleteIsCover RestoredAreCliques Consistent NoStuck

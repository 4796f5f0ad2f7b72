SPECIFICATION Spec
CONSTANTS N = 4
GRAPHS = {}
INVARIANTS RulesKeepValue ForcedIsUnique BranchingIsComplete CompleteIsCover RestoredAreCliques Consistent NoStuck

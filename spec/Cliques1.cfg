SPECIFICATION Spec
CONSTANTS N = 4
GENS = {1}
INVARIANTS OnlyMaximal NoneTwice AllAtEnd
PROPERTY Ends

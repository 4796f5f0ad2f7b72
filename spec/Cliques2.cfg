SPECIFICATION Spec
CONSTANTS N = 3
GENS = {1, 2}
INVARIANTS OnlyMaximal NoneTwice AllAtEnd
PROPERTY Ends

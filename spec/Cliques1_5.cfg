SPECIFICATION Spec
CONSTANTS N = 5
GENS = {1}
INVARIANTS OnlyMaximal NoneTwice AllAtEnd
PROPERTY Ends

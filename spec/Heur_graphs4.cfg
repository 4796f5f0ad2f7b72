SPECIFICATION Spec
CONSTANTS N = 4
MODE = "graphs"
INVARIANTS NeverWaits Size AtEnd Recovered
PROPERTY Finishes

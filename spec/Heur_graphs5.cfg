SPECIFICATION Spec
CONSTANTS N = 5
MODE = "graphs"
INVARIANTS NeverWaits Size AtEnd Recovered
PROPERTY Finishes

SPECIFICATION Spec
CONSTANTS N = 5
MODE = "structures"
INVARIANTS NeverWaits Size AtEnd Recovered StructuresAreOnePC
PROPERTY Finishes

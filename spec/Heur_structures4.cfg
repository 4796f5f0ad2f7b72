SPECIFICATION Spec
CONSTANTS N = 4
MODE = "structures"
INVARIANTS NeverWaits Size AtEnd Recovered StructuresAreOnePC
PROPERTY Finishes

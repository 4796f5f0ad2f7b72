SPECIFICATION Spec
CONSTANTS OBJ = {1, 2} X = {1, 2} LEN = 5 HIST = FALSE
INVARIANT FitOfStructure
PROPERTIES OnlyOne StructureStays

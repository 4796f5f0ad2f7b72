SPECIFICATION Spec
CONSTANTS LEN = 3 SHARED = TRUE
INVARIANTS OwnHistoryDetermines OthersUntouched

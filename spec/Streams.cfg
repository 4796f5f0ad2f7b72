SPECIFICATION Spec
CONSTANTS LEN = 5 SHARED = FALSE
INVARIANTS OwnHistoryDetermines OthersUntouched

SPECIFICATION Spec
CONSTANTS T = 7
CHUNK = 2
WORKERS = {w1, w2, w3}
ORDERED = FALSE
INVARIANT PairByPair

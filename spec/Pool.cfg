SPECIFICATION Spec
CONSTANTS T = 7
CHUNK = 2
WORKERS = {w1, w2, w3}
ORDERED = TRUE
INVARIANT PairByPair
PROPERTY NoneLost

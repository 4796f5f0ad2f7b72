SPECIFICATION Spec
CONSTANTS K = 2 M = 3 TOP = 2
INVARIANTS Covariance Centered Independent Linear

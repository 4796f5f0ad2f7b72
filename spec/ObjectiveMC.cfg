SPECIFICATION Spec
CONSTANT TOP = 20000
INVARIANTS NucBounds NucSymmetric PerfectRecon ReconGrows KLZero RootRight SpectralBounds

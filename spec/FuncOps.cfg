SPECIFICATION Spec
CONSTANT LEN = 24
INVARIANT Emit
